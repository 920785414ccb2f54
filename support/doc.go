// Package gen is the module where the generated code is type checked.
package gen
