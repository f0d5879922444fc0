// Package checks holds one check per property.
package checks

import "verif/internal/mc"

// All lists the checks.
var All = []*mc.Check{c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26}
