package hsms

import "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

// Verification clients (C05): programs over the real encoder and decoder. The verifier proves their contracts
// from the contracts of the functions they call.

func clientData(m *ast.DataMessage) (b []byte, d *ast.DataMessage, ok bool, c []byte) {
	b = m.ToBytes()
	r, good := Parse(b)
	if !good {
		return b, nil, false, nil
	}
	d, ok = r.(*ast.DataMessage)
	if ok {
		c = d.ToBytes()
	}
	return b, d, ok, c
}

func clientControl(m *ast.ControlMessage) (b []byte, d *ast.ControlMessage, ok bool, c []byte) {
	b = m.ToBytes()
	r, good := Parse(b)
	if !good {
		return b, nil, false, nil
	}
	d, ok = r.(*ast.ControlMessage)
	if ok {
		c = d.ToBytes()
	}
	return b, d, ok, c
}
