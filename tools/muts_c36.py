M='mod/dagmodifier.go'
R='io/dagreader.go'
CASES=[]
def b(n,*e): CASES.append((n,["C36"],list(e),'bad'))
def ok(n,*e): CASES.append((n,["C36","C19"],list(e),'ok'))
W="""	if dm.wrBuf == nil {
		dm.wrBuf = new(bytes.Buffer)
	}

	n, err := dm.wrBuf.Write(b)
"""
b("c36-newbuf",(M,W,"""	if dm.wrBuf == nil && len(b) > 0 {
		dm.wrBuf = bytes.NewBuffer(b)
		dm.curWrOff += uint64(len(b))
		return len(b), nil
	}
	if dm.wrBuf == nil {
		dm.wrBuf = new(bytes.Buffer)
	}

	n, err := dm.wrBuf.Write(b)
"""))
b("c36-append",(M,W,"	b = append(b, pad(len(b))...)[:len(b)]\n"+W),(M,"// Write continues","func pad(n int) []byte { return make([]byte, n%2) }\n\n// Write continues"))
b("c36-zero",(M,"	return dm.Write(b)","	n, err := dm.Write(b)\n	if err == nil {\n		for i := range b {\n			b[i] = 0\n		}\n	}\n	return n, err"))
b("c36-keepstruct",(M,"	read uio.DagReader\n","	read uio.DagReader\n	last [][]byte\n"),(M,W,"	dm.last = append(dm.last, b)\n"+W))
b("c36-closure",(M,"	read uio.DagReader\n","	read uio.DagReader\n	redo func() (int, error)\n"),(M,W,"	dm.redo = func() (int, error) { return dm.Write(b) }\n"+W))
b("c36-readkeep",(R,"	dr.dagWalker.SetContext(ctx)\n\n	// If there was a","	dr.dagWalker.SetContext(ctx)\n	dr.seen = bytes.NewReader(out)\n\n	// If there was a"),(R,"	dagWalker *ipld.Walker\n","	dagWalker *ipld.Walker\n	seen *bytes.Reader\n"))
ok("c36-lazy",(M,W,"""	if dm.wrBuf == nil {
		dm.wrBuf = bytes.NewBuffer(make([]byte, 0, len(b)))
	}

	n, err := dm.wrBuf.Write(b)
"""))
ok("c36-clone",(M,W,"""	if dm.wrBuf == nil {
		dm.wrBuf = new(bytes.Buffer)
	}

	own := append([]byte(nil), b...)
	n, err := dm.wrBuf.Write(own)
"""))
ok("c36-helper",(M,W,"	n, err := dm.buffer().Write(b)\n"),(M,"// Write continues","func (dm *DagModifier) buffer() *bytes.Buffer {\n	if dm.wrBuf == nil {\n		dm.wrBuf = new(bytes.Buffer)\n	}\n	return dm.wrBuf\n}\n\n// Write continues"))
ok("c36-readstruct",(R,"""func (dr *dagReader) Read(b []byte) (int, error) {
	return dr.CtxReadFull(dr.ctx, b)
}""","""func (dr *dagReader) Read(b []byte) (int, error) {
	req := request{dr.ctx, b}
	return req.do(dr)
}

type request struct {
	ctx context.Context
	out []byte
}

func (r *request) do(dr *dagReader) (int, error) { return dr.CtxReadFull(r.ctx, r.out) }
"""))
