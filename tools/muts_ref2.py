D='io/directory.go'
V='io/resolve.go'
U='file/unixfile.go'
I='importer/importer.go'
B='importer/balanced/builder.go'
H='hamt/hamt.go'
CASES=[]
def ok(n,*e): CASES.append((n,["all"],list(e),'ok'))
ok("ref-v-guard",(V,'''	pn, ok := nd.(*dag.ProtoNode)
	if ok {
		fsn, err := ft.FSNodeFromBytes(pn.Data())
		if err != nil {
			// Not a unixfs node, use standard object traversal code
			return nd.ResolveLink(names)
		}

		if fsn.Type() == ft.THAMTShard {
			if len(names) == 0 {
				return nil, nil, errors.New("end of path, no more links to resolve")
			}

			rods := dag.NewReadOnlyDagService(ds)
			s, err := hamt.NewHamtFromDag(rods, nd)
			if err != nil {
				return nil, nil, err
			}

			out, err := s.Find(ctx, names[0])
			if err != nil {
				return nil, nil, err
			}

			return out, names[1:], nil
		}
	}

	return nd.ResolveLink(names)
}''','''	if !isShard(nd) {
		return nd.ResolveLink(names)
	}
	if len(names) == 0 {
		return nil, nil, errors.New("end of path, no more links to resolve")
	}
	s, err := hamt.NewHamtFromDag(dag.NewReadOnlyDagService(ds), nd)
	if err != nil {
		return nil, nil, err
	}
	first, rest := names[0], names[1:]
	lnk, err := s.Find(ctx, first)
	if err != nil {
		return nil, nil, err
	}
	return lnk, rest, nil
}

// isShard reports whether the node is a shard of a directory.
func isShard(nd ipld.Node) bool {
	pn, ok := nd.(*dag.ProtoNode)
	if !ok {
		return false
	}
	fsn, err := ft.FSNodeFromBytes(pn.Data())
	return err == nil && fsn.Type() == ft.THAMTShard
}'''))
ok("ref-i-shared",(I,'''	dbp := h.DagBuilderParams{
		Dagserv:  ds,
		Maxlinks: h.DefaultLinksPerBlock,
	}
	db, err := dbp.New(spl)
	if err != nil {
		return nil, err
	}
	return bal.Layout(db)
}''','''	return build(ds, spl, bal.Layout)
}

func build(ds ipld.DAGService, spl chunker.Splitter, layout func(*h.DagBuilderHelper) (ipld.Node, error)) (ipld.Node, error) {
	dbp := h.DagBuilderParams{
		Dagserv:  ds,
		Maxlinks: h.DefaultLinksPerBlock,
	}
	db, err := dbp.New(spl)
	if err != nil {
		return nil, err
	}
	return layout(db)
}'''),(I,'''	dbp := h.DagBuilderParams{
		Dagserv:  ds,
		Maxlinks: h.DefaultLinksPerBlock,
	}

	db, err := dbp.New(spl)
	if err != nil {
		return nil, err
	}
	return trickle.Layout(db)''','''	return build(ds, spl, trickle.Layout)'''))
ok("ref-b-rootloop",(B,'''	for depth := 1; !db.Done(); depth++ {
''','''	depth := 0
	for !db.Done() {
		depth++
'''),(B,'''	if db.Done() {
		// No data, return just an empty node.
		root, err := db.NewLeafNode(nil, ft.TFile)
		if err != nil {
			return nil, err
		}
		// This works without Filestore support (`ProcessFileStore`).
		// TODO: Why? Is there a test case missing?

		return root, db.Add(root)
	}
''','''	if db.Done() {
		return emptyRoot(db)
	}
'''),(B,"// fillNodeRec will",'''func emptyRoot(db *h.DagBuilderHelper) (ipld.Node, error) {
	root, err := db.NewLeafNode(nil, ft.TFile)
	if err != nil {
		return nil, err
	}
	return root, db.Add(root)
}

// fillNodeRec will'''))
ok("ref-b-child",(B,'''		if depth == 1 {
			// Base case: add leaf node with data.
			childNode, childFileSize, err = db.NewLeafDataNode(ft.TFile)
			if err != nil {
				return nil, 0, err
			}
		} else {
			// Recursion case: create an internal node to in turn keep
			// descending in the DAG and adding child nodes to it.
			childNode, childFileSize, err = fillNodeRec(db, nil, depth-1)
			if err != nil {
				return nil, 0, err
			}
		}

		err = node.AddChild(childNode, childFileSize, db)
		if err != nil {
			return nil, 0, err
		}
	}

	nodeFileSize = node.FileSize()
''','''		childNode, childFileSize, err = nextChild(db, depth)
		if err != nil {
			return nil, 0, err
		}

		if err = node.AddChild(childNode, childFileSize, db); err != nil {
			return nil, 0, err
		}
	}

	nodeFileSize = node.FileSize()
'''),(B,"// fillNodeRec will",'''func nextChild(db *h.DagBuilderHelper, depth int) (ipld.Node, uint64, error) {
	if depth > 1 {
		return fillNodeRec(db, nil, depth-1)
	}
	return db.NewLeafDataNode(ft.TFile)
}

// fillNodeRec will'''))
ok("ref-b-forever",(B,'''	for node.NumChildren() < db.Maxlinks() && !db.Done() {
''','''	for {
		if db.Done() || node.NumChildren() >= db.Maxlinks() {
			break
		}
'''),(B,'''	filledNode, err = node.Commit()
	if err != nil {
		return nil, 0, err
	}

	return filledNode, nodeFileSize, nil''','''	if filledNode, err = node.Commit(); err != nil {
		return nil, 0, err
	}
	return'''))
ok("ref-f-next",(U,'''	var l *ipld.Link
	var ok bool
	for !ok {
		if it.files == nil && it.errCh == nil {
			return false
		}
		select {
		case l, ok = <-it.files:
			if !ok {
				it.files = nil
			}
		case err := <-it.errCh:
			it.errCh = nil
			it.err = err

			if err != nil {
				return false
			}
		}
	}

	it.curFile = nil
''','''	l := it.nextLink()
	if l == nil {
		return false
	}

	it.curFile = nil
'''),(U,'''func (it *ufsIterator) Err() error {''','''// nextLink waits for the next entry; there is none after the last or an error.
func (it *ufsIterator) nextLink() *ipld.Link {
	for it.files != nil || it.errCh != nil {
		select {
		case l, ok := <-it.files:
			if ok {
				return l
			}
			it.files = nil
		case err := <-it.errCh:
			it.errCh = nil
			it.err = err
			if err != nil {
				return nil
			}
		}
	}
	return nil
}

func (it *ufsIterator) Err() error {'''))
ok("ref-f-file",(U,'''	it.curName = l.Name
	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)
	return it.err == nil''','''	f, err := NewUnixfsFile(it.ctx, it.dserv, nd)
	it.curName, it.curFile, it.err = l.Name, f, err
	return err == nil'''))
ok("ref-f-entries",(U,'''		errCh <- d.forEachLink(func(link *ipld.Link) error {
			if d.ctx.Err() != nil {
				return d.ctx.Err()
			}
			select {
			case fileCh <- link:
			case <-d.ctx.Done():
				return d.ctx.Err()
			}
			return nil
		})

		close(errCh)
		close(fileCh)
	}()''','''		defer close(fileCh)
		defer close(errCh)
		send := func(link *ipld.Link) error {
			if err := d.ctx.Err(); err != nil {
				return err
			}
			select {
			case <-d.ctx.Done():
				return d.ctx.Err()
			case fileCh <- link:
				return nil
			}
		}
		errCh <- d.forEachLink(send)
	}()'''))
ok("ref-d-ctor",(D,'''	basicDir := new(BasicDirectory)
	basicDir.node = node
''','''	basicDir := &BasicDirectory{node: node}
'''),(D,'''	hamtDir := new(HAMTDirectory)
	hamtDir.dserv = d.dserv

	shard, err := hamt.NewShard(d.dserv, DefaultShardWidth)
	if err != nil {
		return nil, err
	}
	shard.SetCidBuilder(d.node.CidBuilder())
	hamtDir.shard = shard

	for _, lnk := range d.node.Links() {
		err = hamtDir.shard.SetLink(ctx, lnk.Name, lnk)
		if err != nil {
			return nil, err
		}
	}

	return hamtDir, nil''','''	shard, err := hamt.NewShard(d.dserv, DefaultShardWidth)
	if err != nil {
		return nil, err
	}
	shard.SetCidBuilder(d.GetCidBuilder())

	links := d.node.Links()
	for i := range links {
		if err := shard.SetLink(ctx, links[i].Name, links[i]); err != nil {
			return nil, err
		}
	}

	return &HAMTDirectory{shard: shard, dserv: d.dserv}, nil'''))
ok("ref-d-dynadd",(D,'''		if switchToBasic {
			basicDir, err := hamtDir.switchToBasic(ctx)
			if err != nil {
				return err
			}
			err = basicDir.AddChild(ctx, name, nd)
			if err != nil {
				return err
			}
			d.Directory = basicDir
			return nil
		}

		return d.Directory.AddChild(ctx, name, nd)
	}
''','''		if !switchToBasic {
			return hamtDir.AddChild(ctx, name, nd)
		}
		return d.toBasic(ctx, hamtDir, func(b *BasicDirectory) error {
			return b.AddChild(ctx, name, nd)
		})
	}
'''),(D,'''	basicDir, err := hamtDir.switchToBasic(ctx)
	if err != nil {
		return err
	}
	err = basicDir.RemoveChild(ctx, name)
	if err != nil {
		return err
	}
	d.Directory = basicDir
	return nil
}''','''	return d.toBasic(ctx, hamtDir, func(b *BasicDirectory) error {
		return b.RemoveChild(ctx, name)
	})
}

// toBasic converts the directory, applies the edit and installs the result.
func (d *DynamicDirectory) toBasic(ctx context.Context, from *HAMTDirectory, edit func(*BasicDirectory) error) error {
	to, err := from.switchToBasic(ctx)
	if err != nil {
		return err
	}
	if err := edit(to); err != nil {
		return err
	}
	d.Directory = to
	return nil
}'''))
ok("ref-d-change",(D,'''	operationSizeChange := 0
	// Find if there is an old entry under that name that will be overwritten.
	entryToRemove, err := d.node.GetNodeLink(name)
	if err != mdag.ErrLinkNotFound {
		if err != nil {
			return false, err
		}
		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}
	if nodeToAdd != nil {
		operationSizeChange += linksize.LinkSizeFunction(name, nodeToAdd.Cid())
	}

	return d.estimatedSize+operationSizeChange >= HAMTShardingSize, nil''','''	size := d.estimatedSize
	if nodeToAdd != nil {
		size += linksize.LinkSizeFunction(name, nodeToAdd.Cid())
	}
	switch old, err := d.node.GetNodeLink(name); err {
	case nil:
		size -= linksize.LinkSizeFunction(name, old.Cid)
	case mdag.ErrLinkNotFound:
	default:
		return false, err
	}

	return size >= HAMTShardingSize, nil'''))
ok("ref-d-hremove",(D,'''	oldChild, err := d.shard.Take(ctx, name)
	if err != nil {
		return err
	}

	if oldChild != nil {
		d.removeFromSizeChange(name, oldChild.Cid)
	}

	return nil''','''	gone, err := d.shard.Take(ctx, name)
	if err == nil && gone != nil {
		d.removeFromSizeChange(name, gone.Cid)
	}
	return err'''),(D,'''	err := d.ForEachLink(ctx, func(lnk *ipld.Link) error {
		err := basicDir.addLinkChild(ctx, lnk.Name, lnk)
		if err != nil {
			return err
		}

		return nil
''','''	err := d.ForEachLink(ctx, func(lnk *ipld.Link) error {
		return basicDir.addLinkChild(ctx, lnk.Name, lnk)
'''))
ok("ref-d-from",(D,'''	switch fsNode.Type() {
	case format.TDirectory:
		return &DynamicDirectory{newBasicDirectoryFromNode(dserv, protoBufNode.Copy().(*mdag.ProtoNode))}, nil
	case format.THAMTShard:
		shard, err := hamt.NewHamtFromDag(dserv, node)
		if err != nil {
			return nil, err
		}
		return &DynamicDirectory{&HAMTDirectory{shard, dserv, 0}}, nil
	}

	return nil, ErrNotADir''','''	var dir Directory
	switch t := fsNode.Type(); t {
	default:
		return nil, ErrNotADir
	case format.THAMTShard:
		dir, err = newHAMTDirectory(dserv, node)
		if err != nil {
			return nil, err
		}
	case format.TDirectory:
		dir = newBasicDirectoryFromNode(dserv, protoBufNode.Copy().(*mdag.ProtoNode))
	}
	return &DynamicDirectory{dir}, nil'''),(D,'''func (d *BasicDirectory) computeEst''','''func newHAMTDirectory(dserv ipld.DAGService, node ipld.Node) (*HAMTDirectory, error) {
	shard, err := hamt.NewHamtFromDag(dserv, node)
	if err != nil {
		return nil, err
	}
	return &HAMTDirectory{shard: shard, dserv: dserv}, nil
}

func (d *BasicDirectory) computeEst'''))
ok("ref-d-below",(D,'''	for linkResult := range linkResults {
		if linkResult.Err != nil {
			return false, linkResult.Err
		}

		partialSize += linksize.LinkSizeFunction(linkResult.Link.Name, linkResult.Link.Cid)
		if partialSize+sizeChange >= HAMTShardingSize {''','''	for {
		linkResult, more := <-linkResults
		if !more {
			break
		}
		if err := linkResult.Err; err != nil {
			return false, err
		}

		l := linkResult.Link
		partialSize += linksize.LinkSizeFunction(l.Name, l.Cid)
		if HAMTShardingSize <= partialSize+sizeChange {'''))
ok("ref-h-forEach",(H,'''	for linkResult := range linkResults {
		if linkResult.Err != nil {
			return links, linkResult.Err
		}
		links = append(links, linkResult.Link)
	}
	// A''','''	for r := range linkResults {
		switch {
		case r.Err != nil:
			return links, r.Err
		default:
			links = append(links, r.Link)
		}
	}
	// A'''))
ok("ref-h-setlink",(H,'''	newLink := ipld.Link{
		Name: lnk.Name,
		Size: lnk.Size,
		Cid:  lnk.Cid,
	}

	// FIXME: We don't need to set the name here, it will get overwritten.
	//  This is confusing, confirm and remove this line.
	newLink.Name = ds.linkNamePrefix(0) + name

	_, err := ds.swapValue(ctx, hv, name, &newLink)
	return err''','''	_, err := ds.swapValue(ctx, hv, name, &ipld.Link{
		Name: ds.linkNamePrefix(0) + name,
		Size: lnk.Size,
		Cid:  lnk.Cid,
	})
	return err'''))
