package model

import "github.com/libregraph/idm/zzverif/sym"

// Any characters, without regard to how many of them are of a kind.

//verif:model github.com/sethvargo/go-password/password.Generate
func passwordGenerate(length, numDigits, numSymbols int, noUpper, allowRepeat bool) (string, error) {
	return sym.StringIn("generated", length, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789~!@#$%^&*()_+`-={}|[]\\:\"<>?,./"), nil
}
