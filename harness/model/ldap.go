package model

import (
	"fmt"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/sym"
)

// The text of an error with a symbolic code does not name the code.
//
//verif:model (*github.com/go-ldap/ldap/v3.Error).Error
func ldapErrorText(e *ldap.Error) string {
	if sym.Known(int(e.ResultCode)) {
		return fmt.Sprintf("LDAP Result Code %d %q: %s", e.ResultCode, ldap.LDAPResultCodeMap[e.ResultCode], e.Err.Error())
	}
	return "LDAP Result Code: " + e.Err.Error()
}
