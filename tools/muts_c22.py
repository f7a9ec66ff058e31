D='io/directory.go'
H='hamt/hamt.go'
M='mod/dagmodifier.go'
R='io/dagreader.go'
U='file/unixfile.go'
T='importer/trickle/trickledag.go'
CASES=[]
def b(n,*e): CASES.append((n,["C22"],list(e),'bad'))
def ok(n,*e): CASES.append((n,["all"],list(e),'ok'))
b("c22-find",(D,"	return d.dserv.Get(ctx, lnk.Cid)","	return d.dserv.Get(context.Background(), lnk.Cid)"))
b("c22-swapadd",(H,"	err := ds.dserv.Add(ctx, node)","	err := ds.dserv.Add(context.TODO(), node)"))
b("c22-helper",(H,"	err := ds.dserv.Add(ctx, node)","	err := ds.store(node)"),(H,"// Swap sets a link","func (ds *Shard) store(node ipld.Node) error { return ds.dserv.Add(context.TODO(), node) }\n\n// Swap sets a link"))
b("c22-closure",(D,"err := basicDir.addLinkChild(ctx, lnk.Name, lnk)","ctx := context.Background()\n		err := basicDir.addLinkChild(ctx, lnk.Name, lnk)"))
b("c22-branch",(D,'''	lnk, err := d.shard.Find(ctx, name)
	if err != nil {
		return nil, err
	}
''','''	lnk, err := d.shard.Find(ctx, name)
	if err != nil {
		return nil, err
	}
	if ctx.Err() != nil {
		ctx = context.Background()
	}
'''))
b("c22-mod",(M,"	nnode, err := dm.dagserv.Get(dm.ctx, thisc)","	nnode, err := dm.dagserv.Get(context.TODO(), thisc)"))
b("c22-modkeep",(M,"		ctx:       ctx,","		ctx:       context.Background(),"))
b("c22-iter",(U,"		ctx:   d.ctx,\n",""))
b("c22-iter2",(U,"	nd, err := l.GetNode(it.ctx, it.dserv)","	nd, err := l.GetNode(context.Background(), it.dserv)"))
b("c22-setctx",(R,"	dr.dagWalker.SetContext(ctx)\n",""))
b("c22-setctx2",(R,"	dr.dagWalker.SetContext(ctx)\n","	if dr.currentNodeData == nil {\n		dr.dagWalker.SetContext(ctx)\n	}\n"))
b("c22-writeto",(R,'''func (dr *dagReader) WriteTo(w io.Writer) (n int64, err error) {
	// Use the internal reader's context to fetch the child node promises
	// (see `ipld.NavigableIPLDNode.FetchChild` for details).
	dr.dagWalker.SetContext(dr.ctx)
''','''func (dr *dagReader) WriteTo(w io.Writer) (n int64, err error) {
'''))
b("c22-close",(R,"	dr.cancel()\n	return nil","	dr.currentNodeData = nil\n	return nil"))
b("c22-drop",(M,'''		dm.read = nil
		dm.readCancel()
''','''		dm.read = nil
'''))
b("c22-prepleak",(M,'''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			cancel()
			return err
		}
''','''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			return err
		}
'''))
b("c22-enumleak",(H,"		defer cancel()\n",""),(H,"	ctx, cancel := context.WithCancel(ctx)","	ctx, cancel := context.WithCancel(ctx)\n	_ = cancel"))
b("c22-enumcond",(H,"		defer cancel()\n",""),(H,"		if err != nil {\n			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})","		if err != nil {\n			cancel()\n			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})"))
b("c22-measure",(D,"	linkResults := d.EnumLinksAsync(ctx)\n	defer func","	linkResults := d.EnumLinksAsync(context.Background())\n	defer func"))
b("c22-prepctx",(M,"		ctx, cancel := context.WithCancel(dm.ctx)","		ctx, cancel := context.WithCancel(context.Background())"))
b("c22-append",(M,"		return trickle.Append(dm.ctx, nd.Copy(), db)","		return trickle.Append(context.TODO(), nd.Copy(), db)"))
b("c22-readctx",(M,"	n, err := dm.read.CtxReadFull(ctx, b)","	n, err := dm.read.CtxReadFull(dm.ctx, b)"))
b("c22-wrongparent",(R,"		ctx:       ctxWithCancel,","		ctx:       context.WithValue(context.Background(), ctxKey{}, ctxWithCancel),"),(R,"// dagReader provides a way","type ctxKey struct{}\n\n// dagReader provides a way"))
b("c22-early",(R,'''	ctxWithCancel, cancel := context.WithCancel(ctx)

	return &dagReader{''','''	return &dagReader{'''),(R,'''	var size uint64
''','''	ctxWithCancel, cancel := context.WithCancel(ctx)
	var size uint64
'''))
ok("c22-ok-helper",(H,"	err := ds.dserv.Add(ctx, node)","	err := ds.store(ctx, node)"),(H,"// Swap sets a link","func (ds *Shard) store(ctx context.Context, node ipld.Node) error { return ds.dserv.Add(ctx, node) }\n\n// Swap sets a link"))
ok("c22-ok-timeout",(D,"	return d.dserv.Get(ctx, lnk.Cid)","	c, cancel := context.WithCancel(ctx)\n	defer cancel()\n	return d.dserv.Get(c, lnk.Cid)"))
ok("c22-ok-release",(M,'''	if dm.read != nil {
		dm.read = nil
		dm.readCancel()
	}
''','''	if dm.read == nil {
		return
	}
	dm.readCancel()
	dm.read = nil
'''))
ok("c22-ok-prep",(M,'''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			cancel()
			return err
		}

		if i != int64(dm.curWrOff) {
			cancel()
			return ErrSeekFail
		}

		dm.readCancel = cancel
		dm.read = dr
''','''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err == nil && i != int64(dm.curWrOff) {
			err = ErrSeekFail
		}
		if err != nil {
			cancel()
			return err
		}
		dm.read, dm.readCancel = dr, cancel
'''))
ok("c22-ok-defer",(M,'''		dr, err := uio.NewDagReader(ctx, dm.curNode, dm.dagserv)
		if err != nil {
			cancel()
			return err
		}

		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			cancel()
			return err
		}

		if i != int64(dm.curWrOff) {
			cancel()
			return ErrSeekFail
		}

		dm.readCancel = cancel
		dm.read = dr
''','''		keep := false
		defer func() {
			if !keep {
				cancel()
			}
		}()
		dr, err := uio.NewDagReader(ctx, dm.curNode, dm.dagserv)
		if err != nil {
			return err
		}

		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			return err
		}

		if i != int64(dm.curWrOff) {
			return ErrSeekFail
		}

		keep = true
		dm.readCancel = cancel
		dm.read = dr
'''))
ok("c22-ok-derive",(M,'''		ctx, cancel := context.WithCancel(dm.ctx)
''','''		ctx, cancel := dm.derive()
'''),(M,"// CtxReadFull reads","func (dm *DagModifier) derive() (context.Context, context.CancelFunc) {\n	return context.WithCancel(dm.ctx)\n}\n\n// CtxReadFull reads"))
ok("c22-ok-trunc",(M,"			child, err := nd.Links()[i].GetNode(ctx, dm.dagserv)","			child, err := nd.Links()[i].GetNode(dm.ctx, dm.dagserv)")) if False else None
ok("c22-ok-setctx",(R,"		dr.dagWalker.SetContext(dr.ctx)\n		// TODO: Performance","		// TODO: Performance"))
ok("c22-ok-go",(H,"		defer cancel()\n","		defer func() { cancel() }()\n"))
CASES=[c for c in CASES if c]
