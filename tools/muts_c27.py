F='file/unixfile.go'
CASES=[]
def b(n,*e): CASES.append((n,["C27"],list(e),'bad'))
def ok(n,*e): CASES.append((n,["all"],list(e),'ok'))
b("c27-filesend",(F,'''			if !ok {
				it.files = nil
			}
''','''			if !ok {
				return false
			}
'''))
b("c27-errkeep",(F,'''			it.err = err

			if err != nil {
				return false
			}
''','''			if err != nil {
				return false
			}
'''))
b("c27-errnotend",(F,'''			it.err = err

			if err != nil {
				return false
			}
''','''			if err != nil && it.files == nil {
				it.err = err
				return false
			}
'''))
b("c27-entryerr",(F,'''	if it.err != nil {
		return false
	}

	var l *ipld''','''	if it.err != nil && it.files == nil {
		return false
	}

	var l *ipld'''))
b("c27-skipbad",(F,'''	nd, err := l.GetNode(it.ctx, it.dserv)
	if err != nil {
		it.err = err
		return false
	}
''','''	nd, err := l.GetNode(it.ctx, it.dserv)
	if err == ipld.ErrNotFound {
		return it.Next()
	}
	if err != nil {
		it.err = err
		return false
	}
'''))
b("c27-stalename",(F,'''	it.curName = l.Name
	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)
''','''	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)
	if it.curName == "" {
		it.curName = l.Name
	}
'''))
b("c27-nodeerr",(F,'''	return it.err == nil
}''','''	return it.curFile != nil || it.err == nil
}'''))
b("c27-cbdrop",(F,'''			case <-d.ctx.Done():
				return d.ctx.Err()
			}
			return nil''','''			case <-d.ctx.Done():
			}
			return nil'''))
b("c27-errdrop",(F,'''		errCh <- d.forEachLink(func''','''		_ = d.forEachLink(func'''))
b("c27-noclose",(F,'''		close(errCh)
		close(fileCh)
''','''		close(errCh)
'''))
b("c27-symhamt",(F,'''		if fsn.IsDir() {
			return newUnixfsDir''','''		if fsn.Type() == ft.TDirectory {
			return newUnixfsDir'''))
b("c27-symtarget",(F,'''files.NewLinkFile(string(fsn.Data()), nil)''','''files.NewLinkFile(string(dn.Data()), nil)'''))
b("c27-anynode",(F,'''	default:
		return nil, errors.New("unknown node type")
''','''	case nil:
		return nil, errors.New("unknown node type")
'''))
b("c27-metafile",(F,'''		if fsn.Type() == ft.TSymlink {''','''		if fsn.Type() == ft.TSymlink || fsn.Type() == ft.TMetadata {'''))
b("c27-name",(F,'''	return it.curName
''','''	if it.err != nil {
		return ""
	}
	return it.curName
''')) if 0 else None
b("c27-size",(F,'''	return int64(f.DagReader.Size()), nil''','''	return int64(f.DagReader.Size()) &^ 1, nil'''))
ok("c27-r-next",(F,'''	var l *ipld.Link
	var ok bool
	for !ok {
		if it.files == nil && it.errCh == nil {
			return false
		}
		select {
		case l, ok = <-it.files:
			if !ok {
				it.files = nil
			}
		case err := <-it.errCh:
			it.errCh = nil
			it.err = err

			if err != nil {
				return false
			}
		}
	}

	it.curFile = nil

	nd, err := l.GetNode(it.ctx, it.dserv)
	if err != nil {
		it.err = err
		return false
	}

	it.curName = l.Name
	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)
	return it.err == nil
}
''','''	l := it.receive()
	if l == nil {
		return false
	}
	it.curFile = nil
	if err := it.open(l); err != nil {
		it.err = err
		return false
	}
	return true
}

func (it *ufsIterator) open(l *ipld.Link) error {
	nd, err := l.GetNode(it.ctx, it.dserv)
	if err != nil {
		return err
	}
	f, err := NewUnixfsFile(it.ctx, it.dserv, nd)
	it.curName = l.Name
	if err != nil {
		return err
	}
	it.curFile = f
	return nil
}

// receive returns the next link, or nil at the end and after an error.
func (it *ufsIterator) receive() *ipld.Link {
	for it.files != nil || it.errCh != nil {
		select {
		case l, ok := <-it.files:
			if ok {
				return l
			}
			it.files = nil
		case it.err = <-it.errCh:
			it.errCh = nil
			if it.err != nil {
				return nil
			}
		}
	}
	return nil
}
'''))
ok("c27-r-entries",(F,'''	go func() {
		errCh <- d.forEachLink(func(link *ipld.Link) error {
			if d.ctx.Err() != nil {
				return d.ctx.Err()
			}
			select {
			case fileCh <- link:
			case <-d.ctx.Done():
				return d.ctx.Err()
			}
			return nil
		})

		close(errCh)
		close(fileCh)
	}()
''','''	emit := func(link *ipld.Link) error {
		if err := d.ctx.Err(); err != nil {
			return err
		}
		select {
		case <-d.ctx.Done():
			return d.ctx.Err()
		case fileCh <- link:
			return nil
		}
	}
	go func() {
		defer close(fileCh)
		defer close(errCh)
		if err := d.forEachLink(emit); err != nil {
			errCh <- err
		}
	}()
'''))
ok("c27-r-kind",(F,'''	switch dn := nd.(type) {
	case *dag.ProtoNode:
		fsn, err := ft.FSNodeFromBytes(dn.Data())
		if err != nil {
			return nil, err
		}
		if fsn.IsDir() {
			return newUnixfsDir(ctx, dserv, dn)
		}
		if fsn.Type() == ft.TSymlink {
			return files.NewLinkFile(string(fsn.Data()), nil), nil
		}

	case *dag.RawNode:
	default:
		return nil, errors.New("unknown node type")
	}
''','''	if dn, ok := nd.(*dag.ProtoNode); ok {
		fsn, err := ft.FSNodeFromBytes(dn.Data())
		if err != nil {
			return nil, err
		}
		switch fsn.Type() {
		case ft.TDirectory, ft.THAMTShard:
			return newUnixfsDir(ctx, dserv, dn)
		case ft.TSymlink:
			target := string(fsn.Data())
			return files.NewLinkFile(target, nil), nil
		}
	} else if _, ok := nd.(*dag.RawNode); !ok {
		return nil, errors.New("unknown node type")
	}
'''))
CASES=[c for c in CASES if c]
