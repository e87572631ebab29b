package shim

import "golang.org/x/tools/go/packages"

// LoadHook, when set, stands in for packages.Load.
var LoadHook func(conf *packages.Config, patterns ...string) ([]*packages.Package, error)

// Load replaces packages.Load.
func Load(conf *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if LoadHook != nil {
		return LoadHook(conf, patterns...)
	}
	return packages.Load(conf, patterns...)
}
