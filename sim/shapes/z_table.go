// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

var Dirs = []string{"/sim/mod", "/sim/mod/pkg", "/sim/mod/pkg/deep/er", "/sim/odd 100%d [x]/mod/pkg"}

var Files = []File{
	{Dir: "/sim/mod", Name: "one_test.go", Test: f00Test, Shapes: map[string]func(*Args){
		"direct":   f00Direct,
		"same":     f00Same,
		"helper":   f00Helper,
		"deep":     f00Deep,
		"util":     f00Util,
		"dep":      f00Dep,
		"other":    f00Other,
		"go":       f00Go,
		"gohelper": f00GoHelper,
		"defer":    f00Defer,
		"iface":    f00Iface,
		"generic":  f00Generic,
		"callback": f00Callback,
		"depcall":  f00DepCall,
		"outer":    h0Leaf,
	}},
	{Dir: "/sim/mod", Name: "two_test.go", Test: f01Test, Shapes: map[string]func(*Args){
		"direct":   f01Direct,
		"same":     f01Same,
		"helper":   f01Helper,
		"deep":     f01Deep,
		"util":     f01Util,
		"dep":      f01Dep,
		"other":    f01Other,
		"go":       f01Go,
		"gohelper": f01GoHelper,
		"defer":    f01Defer,
		"iface":    f01Iface,
		"generic":  f01Generic,
		"callback": f01Callback,
		"depcall":  f01DepCall,
		"outer":    h0Leaf,
	}},
	{Dir: "/sim/mod", Name: "odd.name_test.go", Test: f02Test, Shapes: map[string]func(*Args){
		"direct":   f02Direct,
		"same":     f02Same,
		"helper":   f02Helper,
		"deep":     f02Deep,
		"util":     f02Util,
		"dep":      f02Dep,
		"other":    f02Other,
		"go":       f02Go,
		"gohelper": f02GoHelper,
		"defer":    f02Defer,
		"iface":    f02Iface,
		"generic":  f02Generic,
		"callback": f02Callback,
		"depcall":  f02DepCall,
		"outer":    h0Leaf,
	}},
	{Dir: "/sim/mod", Name: "suite.go", Test: f03Test, Shapes: map[string]func(*Args){
		"direct":   f03Direct,
		"same":     f03Same,
		"helper":   f03Helper,
		"deep":     f03Deep,
		"util":     f03Util,
		"dep":      f03Dep,
		"other":    f03Other,
		"go":       f03Go,
		"gohelper": f03GoHelper,
		"defer":    f03Defer,
		"iface":    f03Iface,
		"generic":  f03Generic,
		"callback": f03Callback,
		"depcall":  f03DepCall,
		"outer":    h0Leaf,
	}},
	{Dir: "/sim/mod/pkg", Name: "one_test.go", Test: f10Test, Shapes: map[string]func(*Args){
		"direct":   f10Direct,
		"same":     f10Same,
		"helper":   f10Helper,
		"deep":     f10Deep,
		"util":     f10Util,
		"dep":      f10Dep,
		"other":    f10Other,
		"go":       f10Go,
		"gohelper": f10GoHelper,
		"defer":    f10Defer,
		"iface":    f10Iface,
		"generic":  f10Generic,
		"callback": f10Callback,
		"depcall":  f10DepCall,
		"outer":    h1Leaf,
	}},
	{Dir: "/sim/mod/pkg", Name: "two_test.go", Test: f11Test, Shapes: map[string]func(*Args){
		"direct":   f11Direct,
		"same":     f11Same,
		"helper":   f11Helper,
		"deep":     f11Deep,
		"util":     f11Util,
		"dep":      f11Dep,
		"other":    f11Other,
		"go":       f11Go,
		"gohelper": f11GoHelper,
		"defer":    f11Defer,
		"iface":    f11Iface,
		"generic":  f11Generic,
		"callback": f11Callback,
		"depcall":  f11DepCall,
		"outer":    h1Leaf,
	}},
	{Dir: "/sim/mod/pkg", Name: "odd.name_test.go", Test: f12Test, Shapes: map[string]func(*Args){
		"direct":   f12Direct,
		"same":     f12Same,
		"helper":   f12Helper,
		"deep":     f12Deep,
		"util":     f12Util,
		"dep":      f12Dep,
		"other":    f12Other,
		"go":       f12Go,
		"gohelper": f12GoHelper,
		"defer":    f12Defer,
		"iface":    f12Iface,
		"generic":  f12Generic,
		"callback": f12Callback,
		"depcall":  f12DepCall,
		"outer":    h1Leaf,
	}},
	{Dir: "/sim/mod/pkg", Name: "suite.go", Test: f13Test, Shapes: map[string]func(*Args){
		"direct":   f13Direct,
		"same":     f13Same,
		"helper":   f13Helper,
		"deep":     f13Deep,
		"util":     f13Util,
		"dep":      f13Dep,
		"other":    f13Other,
		"go":       f13Go,
		"gohelper": f13GoHelper,
		"defer":    f13Defer,
		"iface":    f13Iface,
		"generic":  f13Generic,
		"callback": f13Callback,
		"depcall":  f13DepCall,
		"outer":    h1Leaf,
	}},
	{Dir: "/sim/mod/pkg/deep/er", Name: "one_test.go", Test: f20Test, Shapes: map[string]func(*Args){
		"direct":   f20Direct,
		"same":     f20Same,
		"helper":   f20Helper,
		"deep":     f20Deep,
		"util":     f20Util,
		"dep":      f20Dep,
		"other":    f20Other,
		"go":       f20Go,
		"gohelper": f20GoHelper,
		"defer":    f20Defer,
		"iface":    f20Iface,
		"generic":  f20Generic,
		"callback": f20Callback,
		"depcall":  f20DepCall,
		"outer":    h2Leaf,
	}},
	{Dir: "/sim/mod/pkg/deep/er", Name: "two_test.go", Test: f21Test, Shapes: map[string]func(*Args){
		"direct":   f21Direct,
		"same":     f21Same,
		"helper":   f21Helper,
		"deep":     f21Deep,
		"util":     f21Util,
		"dep":      f21Dep,
		"other":    f21Other,
		"go":       f21Go,
		"gohelper": f21GoHelper,
		"defer":    f21Defer,
		"iface":    f21Iface,
		"generic":  f21Generic,
		"callback": f21Callback,
		"depcall":  f21DepCall,
		"outer":    h2Leaf,
	}},
	{Dir: "/sim/mod/pkg/deep/er", Name: "odd.name_test.go", Test: f22Test, Shapes: map[string]func(*Args){
		"direct":   f22Direct,
		"same":     f22Same,
		"helper":   f22Helper,
		"deep":     f22Deep,
		"util":     f22Util,
		"dep":      f22Dep,
		"other":    f22Other,
		"go":       f22Go,
		"gohelper": f22GoHelper,
		"defer":    f22Defer,
		"iface":    f22Iface,
		"generic":  f22Generic,
		"callback": f22Callback,
		"depcall":  f22DepCall,
		"outer":    h2Leaf,
	}},
	{Dir: "/sim/mod/pkg/deep/er", Name: "suite.go", Test: f23Test, Shapes: map[string]func(*Args){
		"direct":   f23Direct,
		"same":     f23Same,
		"helper":   f23Helper,
		"deep":     f23Deep,
		"util":     f23Util,
		"dep":      f23Dep,
		"other":    f23Other,
		"go":       f23Go,
		"gohelper": f23GoHelper,
		"defer":    f23Defer,
		"iface":    f23Iface,
		"generic":  f23Generic,
		"callback": f23Callback,
		"depcall":  f23DepCall,
		"outer":    h2Leaf,
	}},
	{Dir: "/sim/odd 100%d [x]/mod/pkg", Name: "one_test.go", Test: f30Test, Shapes: map[string]func(*Args){
		"direct":   f30Direct,
		"same":     f30Same,
		"helper":   f30Helper,
		"deep":     f30Deep,
		"util":     f30Util,
		"dep":      f30Dep,
		"other":    f30Other,
		"go":       f30Go,
		"gohelper": f30GoHelper,
		"defer":    f30Defer,
		"iface":    f30Iface,
		"generic":  f30Generic,
		"callback": f30Callback,
		"depcall":  f30DepCall,
		"outer":    h3Leaf,
	}},
	{Dir: "/sim/odd 100%d [x]/mod/pkg", Name: "two_test.go", Test: f31Test, Shapes: map[string]func(*Args){
		"direct":   f31Direct,
		"same":     f31Same,
		"helper":   f31Helper,
		"deep":     f31Deep,
		"util":     f31Util,
		"dep":      f31Dep,
		"other":    f31Other,
		"go":       f31Go,
		"gohelper": f31GoHelper,
		"defer":    f31Defer,
		"iface":    f31Iface,
		"generic":  f31Generic,
		"callback": f31Callback,
		"depcall":  f31DepCall,
		"outer":    h3Leaf,
	}},
	{Dir: "/sim/odd 100%d [x]/mod/pkg", Name: "odd.name_test.go", Test: f32Test, Shapes: map[string]func(*Args){
		"direct":   f32Direct,
		"same":     f32Same,
		"helper":   f32Helper,
		"deep":     f32Deep,
		"util":     f32Util,
		"dep":      f32Dep,
		"other":    f32Other,
		"go":       f32Go,
		"gohelper": f32GoHelper,
		"defer":    f32Defer,
		"iface":    f32Iface,
		"generic":  f32Generic,
		"callback": f32Callback,
		"depcall":  f32DepCall,
		"outer":    h3Leaf,
	}},
	{Dir: "/sim/odd 100%d [x]/mod/pkg", Name: "suite.go", Test: f33Test, Shapes: map[string]func(*Args){
		"direct":   f33Direct,
		"same":     f33Same,
		"helper":   f33Helper,
		"deep":     f33Deep,
		"util":     f33Util,
		"dep":      f33Dep,
		"other":    f33Other,
		"go":       f33Go,
		"gohelper": f33GoHelper,
		"defer":    f33Defer,
		"iface":    f33Iface,
		"generic":  f33Generic,
		"callback": f33Callback,
		"depcall":  f33DepCall,
		"outer":    h3Leaf,
	}},
}

var ShapeNames = []string{"direct", "same", "helper", "deep", "util", "dep", "other", "go", "gohelper", "defer", "iface", "generic", "callback", "depcall", "outer"}
