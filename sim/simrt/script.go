package simrt

// ScriptOp is one operation of the line edit script of the diff engine.
type ScriptOp struct {
	Tag            string
	I1, I2, J1, J2 int
}

// DiffScript and DiffHunks are set when the tree under test exposes the script (tools/instr).
var (
	DiffScript func(a, b []string) []ScriptOp
	DiffHunks  func(a, b []string, context int) [][]ScriptOp
)
