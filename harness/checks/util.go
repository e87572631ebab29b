// Package checks holds one file per property.
package checks

import "verifharness/core"

var loader *core.Loader

func getLoader(e *core.Env) *core.Loader {
	if loader == nil {
		loader = core.NewLoader(e)
	}
	return loader
}
