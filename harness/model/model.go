// Package model holds executable models that replace functions whose real
// bodies the executor does not run. They are never compiled natively.
package model

import _ "github.com/libregraph/idm/zzverif/sym"
