package model

import "github.com/trustelem/zxcvbn"

// Strength by length only.

//verif:model github.com/trustelem/zxcvbn.PasswordStrength
func passwordStrength(password string, userInputs []string) (r zxcvbn.Result) {
	if len(password) >= 12 {
		r.Score = 4
	}
	return r
}
