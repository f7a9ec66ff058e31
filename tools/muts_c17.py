F='io/directory.go'
H='hamt/hamt.go'
CASES=[]
def b(n,*e): CASES.append((n,["C17"],list(e),'bad'))
def ok(n,*e): CASES.append((n,["all"],list(e),'ok'))
b("c17-finderr",(F,'''	if err == mdag.ErrLinkNotFound {
		err = os.ErrNotExist
	}
''',''))
b("c17-findwrap",(F,'''		err = os.ErrNotExist
	}
	if err''','''		err = fmt.Errorf("%s: %w", name, os.ErrNotExist)
	}
	if err'''))
b("c17-findall",(F,'''	if err == mdag.ErrLinkNotFound {
		err = os.ErrNotExist
	}
	if err != nil {
		return nil, err
	}

	return d.dserv.Get(ctx, lnk.Cid)''','''	if err != nil {
		return nil, os.ErrNotExist
	}

	nd, err := d.dserv.Get(ctx, lnk.Cid)
	if err != nil {
		return nil, os.ErrNotExist
	}
	return nd, nil'''))
b("c17-rmmissingnil",(F,'''	if err == mdag.ErrLinkNotFound {
		return os.ErrNotExist
	}
	if err != nil {
		return err // at''','''	if err == mdag.ErrLinkNotFound {
		return nil
	}
	if err != nil {
		return err // at'''))
b("c17-rmraw",(F,'''	if err == mdag.ErrLinkNotFound {
		return os.ErrNotExist
	}
	if err != nil {
		return err // at''','''	if err != nil {
		return err // at'''))
b("c17-rmnothing",(F,'''	return d.node.RemoveNodeLink(name)''','''	if link.Size == 0 {
		return nil
	}
	return d.node.RemoveNodeLink(name)'''))
b("c17-addkeepsold",(F,'''	err := d.RemoveChild(ctx, name)
	if err != nil && err != os.ErrNotExist {
		return err
	}

	err = d.node''','''	err := d.node'''))
b("c17-addkeepsold2",(F,'''	err := d.RemoveChild(ctx, name)
	if err != nil''','''	var err error
	if old, e := d.node.GetNodeLink(name); e == nil && !old.Cid.Equals(link.Cid) {
		err = d.RemoveChild(ctx, name)
	}
	if err != nil'''))
b("c17-addafter",(F,'''	err := d.RemoveChild(ctx, name)
	if err != nil && err != os.ErrNotExist {
		return err
	}

	err = d.node.AddRawLink(name, link)
	if err != nil {
		return err
	}
	d.addToEstimatedSize(name, link.Cid)
	return nil''','''	err := d.node.AddRawLink(name, link)
	if err != nil {
		return err
	}
	d.addToEstimatedSize(name, link.Cid)
	if err = d.RemoveChild(ctx, name); err != os.ErrNotExist {
		return err
	}
	return nil'''))
b("c17-skipsame",(F,'''	link, err := ipld.MakeLink(node)
	if err != nil {
		return err
	}

	return d.addLinkChild''','''	link, err := ipld.MakeLink(node)
	if err != nil {
		return err
	}
	if old, err := d.node.GetNodeLink(name); err == nil && old.Size == link.Size {
		return nil
	}

	return d.addLinkChild'''))
b("c17-hamtfindnil",(F,'''	lnk, err := d.shard.Find(ctx, name)
	if err != nil {
		return nil, err
	}
''','''	lnk, err := d.shard.Find(ctx, name)
	if err != nil {
		return nil, ErrNotADir
	}
'''))
b("c17-hamtremove",(F,'''	oldChild, err := d.shard.Take(ctx, name)
	if err != nil {
		return err
	}
''','''	oldChild, err := d.shard.Take(ctx, name)
	if err != nil && err != os.ErrNotExist {
		return err
	}
'''))
b("c17-hamtadd",(F,'''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err != nil {''','''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err == os.ErrExist {
		return nil
	}
	if err != nil {'''))
b("c17-hamtaddtwice",(F,'''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err != nil {''','''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err == nil && oldChild == nil {
		err = d.shard.Set(ctx, nd.Cid().String(), nd)
	}
	if err != nil {'''))
b("c17-builder",(F,"return d.shard.CidBuilder()","return mdag.V0CidPrefix()"))
b("c17-builder2",(F,"	d.node.SetCidBuilder(builder)\n","	if d.node.CidBuilder() == nil {\n		d.node.SetCidBuilder(builder)\n	}\n"))
b("c17-links",(F,"	return d.node.Links(), nil","	return d.node.Links()[:1], nil"))
b("c17-foreach",(F,'''		if err := f(l); err != nil {
			return err
		}
''','''		if err := f(l); err != nil {
			break
		}
'''))
b("c17-dynfind",(F,'''// AddChild implements the `Directory` interface. We check''','''// Find looks an entry up.
func (d *DynamicDirectory) Find(ctx context.Context, name string) (ipld.Node, error) {
	nd, err := d.Directory.Find(ctx, name)
	if err != nil {
		return nil, os.ErrNotExist
	}
	return nd, nil
}

// AddChild implements the `Directory` interface. We check'''))
b("c17-dynremove",(F,'''	switchToBasic, err := hamtDir.needsToSwitchToBasicDir(ctx, name, nil)
	if err != nil {
		return err
	}
''','''	switchToBasic, err := hamtDir.needsToSwitchToBasicDir(ctx, name, nil)
	if err != nil {
		return os.ErrNotExist
	}
'''))
b("c17-hamtget",(F,"	return lnk.GetNode(ctx, d.dserv)","	_ = lnk\n	return d.shard.Node()"))
b("c17-samelen",(F,"	return d.dserv.Get(ctx, lnk.Cid)",'''	nd, err := d.dserv.Get(ctx, d.node.Links()[0].Cid)
	_ = lnk
	return nd, err'''))
ok("c17-ok-switch",(F,'''	if err == mdag.ErrLinkNotFound {
		err = os.ErrNotExist
	}
	if err != nil {
		return nil, err
	}

	return d.dserv.Get(ctx, lnk.Cid)''','''	switch err {
	case nil:
		return lnk.GetNode(ctx, d.dserv)
	case mdag.ErrLinkNotFound:
		return nil, os.ErrNotExist
	default:
		return nil, err
	}'''))
ok("c17-ok-helper",(F,'''	lnk, err := d.node.GetNodeLink(name)
	if err == mdag.ErrLinkNotFound {
		err = os.ErrNotExist
	}
	if err != nil {
		return nil, err
	}
''','''	lnk, err := d.lookup(name)
	if err != nil {
		return nil, err
	}
'''),(F,'''	link, err := d.node.GetNodeLink(name)
	if err == mdag.ErrLinkNotFound {
		return os.ErrNotExist
	}
	if err != nil {
		return err // at''','''	link, err := d.lookup(name)
	if err != nil {
		return err // at'''),(F,'''// RemoveChild implements the `Directory` interface.
func (d *BasicDirectory)''','''func (d *BasicDirectory) lookup(name string) (*ipld.Link, error) {
	l, err := d.node.GetNodeLink(name)
	if err == mdag.ErrLinkNotFound {
		return nil, os.ErrNotExist
	}
	return l, err
}

// RemoveChild implements the `Directory` interface.
func (d *BasicDirectory)'''))
ok("c17-ok-errorsis",(F,'''	if err != nil && err != os.ErrNotExist {
		return err
	}

	err = d.node''','''	if !(err == nil || err == os.ErrNotExist) {
		return err
	}

	err = d.node'''))
ok("c17-ok-hamtfind",(F,'''	lnk, err := d.shard.Find(ctx, name)
	if err != nil {
		return nil, err
	}

	return lnk.GetNode(ctx, d.dserv)''','''	lnk, err := d.shard.Find(ctx, name)
	if err == nil {
		return d.dserv.Get(ctx, lnk.Cid)
	}
	return nil, err'''))
ok("c17-ok-copylinks",(F,"	return d.node.Links(), nil",'''	ls := d.node.Links()
	out := make([]*ipld.Link, len(ls))
	copy(out, ls)
	return out, nil'''))
ok("c17-ok-dynfind",(F,'''// AddChild implements the `Directory` interface. We check''','''// Find looks an entry up.
func (d *DynamicDirectory) Find(ctx context.Context, name string) (ipld.Node, error) {
	nd, err := d.Directory.Find(ctx, name)
	if err != nil {
		return nil, err
	}
	return nd, nil
}

// AddChild implements the `Directory` interface. We check'''))
ok("c17-ok-appendlinks",(F,"	return d.node.Links(), nil",'''	var out []*ipld.Link
	for _, l := range d.node.Links() {
		out = append(out, l)
	}
	return out, nil'''))
ok("c17-ok-foreach",(F,'''	for _, l := range d.node.Links() {
		if err := f(l); err != nil {
			return err
		}
	}
	return nil''','''	ls := d.node.Links()
	for i := 0; i < len(ls); i++ {
		err := f(ls[i])
		if err == nil {
			continue
		}
		return err
	}
	return nil'''))
