F='io/directory.go'
CASES=[]
def b(n,*e): CASES.append((n,["C18"],list(e),'bad'))
def ok(n,*e): CASES.append((n,["all"],list(e),'ok'))
b("c18-gt",(F,"return d.estimatedSize+operationSizeChange >= HAMTShardingSize, nil","return d.estimatedSize+operationSizeChange > HAMTShardingSize, nil"))
b("c18-before",(F,"return d.estimatedSize+operationSizeChange >= HAMTShardingSize, nil","return d.estimatedSize >= HAMTShardingSize, nil"))
b("c18-oldnotsub",(F,'''		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}
	if nodeToAdd != nil {''','''		_ = entryToRemove
	}
	if nodeToAdd != nil {'''))
b("c18-zero",(F,'''	if HAMTShardingSize == 0 { // Option disabled.
		return false, nil
	}

	operationSizeChange := 0
	// Find if there is''','''	operationSizeChange := 0
	// Find if there is'''))
b("c18-noremoveest",(F,'''	d.removeFromEstimatedSize(link.Name, link.Cid)
''','''	_ = link
'''))
b("c18-doubleadd",(F,'''	d.addToEstimatedSize(name, link.Cid)
	return nil
}''','''	d.addToEstimatedSize(name, link.Cid)
	d.addToEstimatedSize("", link.Cid)
	return nil
}'''))
b("c18-noinit",(F,'''	basicDir.computeEstimatedSize()

''',''))
b("c18-initpartial",(F,'''		d.addToEstimatedSize(l.Name, l.Cid)
		return nil
	})''','''		if l.Size > 0 {
			d.addToEstimatedSize(l.Name, l.Cid)
		}
		return nil
	})'''))
b("c18-swapold",(F,'''	if oldChild != nil {
		d.removeFromSizeChange(name, oldChild.Cid)
	}
	d.addToSizeChange(name, nd.Cid())''','''	if oldChild == nil {
		d.addToSizeChange(name, nd.Cid())
	}'''))
b("c18-take",(F,'''	if oldChild != nil {
		d.removeFromSizeChange(name, oldChild.Cid)
	}

	return nil
}''','''	_ = oldChild
	return nil
}'''))
b("c18-addbefore",(F,'''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err != nil {
		return err
	}
''','''	d.addToSizeChange(name, nd.Cid())
	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err != nil {
		return err
	}
'''),(F,'''	d.addToSizeChange(name, nd.Cid())
	return nil
}

// ForEachLink''','''	return nil
}

// ForEachLink'''))
b("c18-installearly",(F,'''		err = basicDir.AddChild(ctx, name, nd)
			if err != nil {
				return err
			}
			d.Directory = basicDir
			return nil''','''		d.Directory = basicDir
			return basicDir.AddChild(ctx, name, nd)'''))
b("c18-installearly2",(F,'''	err = hamtDir.AddChild(ctx, name, nd)
	if err != nil {
		return err
	}
	d.Directory = hamtDir
	return nil''','''	d.Directory = hamtDir
	return hamtDir.AddChild(ctx, name, nd)'''))
b("c18-lostadd",(F,'''	err = hamtDir.AddChild(ctx, name, nd)
	if err != nil {
		return err
	}
	d.Directory = hamtDir
	return nil''','''	d.Directory = hamtDir
	return nil'''))
b("c18-errignored",(F,'''	err = basicDir.RemoveChild(ctx, name)
	if err != nil {
		return err
	}
	d.Directory = basicDir
	return nil''','''	basicDir.RemoveChild(ctx, name)
	d.Directory = basicDir
	return nil'''))
b("c18-removenoswitchapply",(F,'''	err = basicDir.RemoveChild(ctx, name)
	if err != nil {
		return err
	}
	d.Directory = basicDir
	return nil''','''	d.Directory = basicDir
	return nil'''))
b("c18-ctxerr",(F,'''	if err := ctx.Err(); err != nil {
		return false, err
	}

	// We enumerated''','''	// We enumerated'''))
b("c18-early",(F,'''		if partialSize+sizeChange >= HAMTShardingSize {''','''		if partialSize >= HAMTShardingSize {
			return false, nil
		}
		if sizeChange < -partialSize {
			return true, nil
		}
		if partialSize+sizeChange >= HAMTShardingSize {'''))
b("c18-linkerr",(F,'''		if linkResult.Err != nil {
			return false, linkResult.Err
		}

		partialSize''','''		if linkResult.Err != nil {
			continue
		}

		partialSize'''))
b("c18-findold",(F,'''		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}

	// For the AddEntry''','''		operationSizeChange -= 2 * linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}

	// For the AddEntry'''))
b("c18-below",(F,"return partialSize+sizeChange < HAMTShardingSize, nil","return partialSize+sizeChange <= HAMTShardingSize, nil"))
b("c18-final",(F,"return partialSize+sizeChange < HAMTShardingSize, nil","return true, nil"),(F,"if partialSize+sizeChange >= HAMTShardingSize {","if partialSize+sizeChange > HAMTShardingSize {"))
b("c18-convskip",(F,'''	for _, lnk := range d.node.Links() {
		err = hamtDir.shard.SetLink''','''	for _, lnk := range d.node.Links() {
		if lnk.Size == 0 {
			continue
		}
		err = hamtDir.shard.SetLink'''))
b("c18-convfirst",(F,'''	for _, lnk := range d.node.Links() {
		err = hamtDir.shard.SetLink''','''	for _, lnk := range d.node.Links()[1:] {
		err = hamtDir.shard.SetLink'''))
b("c18-convname",(F,"err := basicDir.addLinkChild(ctx, lnk.Name, lnk)","err := basicDir.addLinkChild(ctx, lnk.Cid.String(), lnk)"))
b("c18-convraw",(F,"err := basicDir.addLinkChild(ctx, lnk.Name, lnk)","err := basicDir.node.AddRawLink(lnk.Name, lnk)"))
b("c18-convstop",(F,'''		err := basicDir.addLinkChild(ctx, lnk.Name, lnk)
		if err != nil {
			return err
		}
''','''		err := basicDir.addLinkChild(ctx, lnk.Name, lnk)
		if err != nil {
			return nil
		}
'''))
b("c18-convforeacherr",(F,'''	if err != nil {
		return nil, err
	}

	return basicDir, nil
}''','''	_ = err
	return basicDir, nil
}'''))
b("c18-size",(F,"return len(linkName) + linkCid.ByteLen()","return len(linkName) + len(linkCid.String())"))
b("c18-convdestroy",(F,'''		err = hamtDir.shard.SetLink(ctx, lnk.Name, lnk)
		if err != nil {''','''		err = hamtDir.shard.SetLink(ctx, lnk.Name, lnk)
		d.node.RemoveNodeLink(lnk.Name)
		if err != nil {'''))
b("c18-changekept",(F,'''	hamtDir.shard = shard

''','''	hamtDir.shard = shard
	hamtDir.sizeChange = d.estimatedSize

'''))
# refactorings
ok("c18-ok-nocheap",(F,'''	if d.sizeChange+operationSizeChange >= 0 {
		// We won't have reduced the HAMT net size.
		return false, nil
	}

''',''))
ok("c18-ok-loop",(F,'''	// err is just breaking the iteration and we always return nil
	_ = d.ForEachLink(context.TODO(), func(l *ipld.Link) error {
		d.addToEstimatedSize(l.Name, l.Cid)
		return nil
	})
''','''	for _, l := range d.node.Links() {
		d.estimatedSize += linksize.LinkSizeFunction(l.Name, l.Cid)
	}
'''),(F,'''	_ = d.ForEachLink''','''	_ = d.ForEachLink''') ) if False else None
ok("c18-ok-loop",(F,'''	// err is just breaking the iteration and we always return nil
	_ = d.ForEachLink(context.TODO(), func(l *ipld.Link) error {
		d.addToEstimatedSize(l.Name, l.Cid)
		return nil
	})
''','''	for _, l := range d.node.Links() {
		d.estimatedSize += linksize.LinkSizeFunction(l.Name, l.Cid)
	}
'''))
ok("c18-ok-noguard",(F,'''	if d.estimatedSize < 0 {
		// Something has gone very wrong. Log an error and recompute the
		// size from scratch.
		log.Error("BasicDirectory's estimatedSize went below 0")
		d.computeEstimatedSize()
	}
''',''))
ok("c18-ok-running",(F,'''	partialSize := 0

	// We stop''','''	total := sizeChange

	// We stop'''),(F,'''		partialSize += linksize.LinkSizeFunction(linkResult.Link.Name, linkResult.Link.Cid)
		if partialSize+sizeChange >= HAMTShardingSize {''','''		total += linksize.LinkSizeFunction(linkResult.Link.Name, linkResult.Link.Cid)
		if !(total < HAMTShardingSize) {'''),(F,"return partialSize+sizeChange < HAMTShardingSize, nil","return total < HAMTShardingSize, nil"))
ok("c18-ok-noearly",(F,'''		if partialSize+sizeChange >= HAMTShardingSize {
			// We have already fetched enough shards to assert we are
			//  above the threshold, so no need to keep fetching.
			return false, nil
		}
''',''))
ok("c18-ok-errnil",(F,'''	if err != mdag.ErrLinkNotFound {
		if err != nil {
			return false, err
		}
		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}
''','''	switch err {
	case nil:
		operationSizeChange = -linksize.LinkSizeFunction(name, entryToRemove.Cid)
	case mdag.ErrLinkNotFound:
	default:
		return false, err
	}
'''))
ok("c18-ok-helper",(F,'''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err != nil {
		return err
	}

	if oldChild != nil {
		d.removeFromSizeChange(name, oldChild.Cid)
	}
	d.addToSizeChange(name, nd.Cid())
	return nil
}
''','''	oldChild, err := d.shard.Swap(ctx, name, nd)
	if err == nil {
		d.sizeChange += d.delta(name, oldChild, nd.Cid())
	}
	return err
}

func (d *HAMTDirectory) delta(name string, old *ipld.Link, c cid.Cid) int {
	n := linksize.LinkSizeFunction(name, c)
	if old == nil {
		return n
	}
	return n - linksize.LinkSizeFunction(name, old.Cid)
}
'''))
ok("c18-ok-dyn",(F,'''	err = basicDir.RemoveChild(ctx, name)
	if err != nil {
		return err
	}
	d.Directory = basicDir
	return nil''','''	if err = basicDir.RemoveChild(ctx, name); err == nil {
		d.Directory = basicDir
	}
	return err'''))
ok("c18-ok-typeswitch",(F,'''	hamtDir, ok := d.Directory.(*HAMTDirectory)
	if !ok {
		return d.Directory.RemoveChild(ctx, name)
	}

	switchToBasic''','''	var hamtDir *HAMTDirectory
	switch dir := d.Directory.(type) {
	case *HAMTDirectory:
		hamtDir = dir
	default:
		return dir.RemoveChild(ctx, name)
	}

	switchToBasic'''))
ok("c18-ok-enum",(F,'''	linkResults := d.EnumLinksAsync(ctx)
	defer func''','''	linkResults := d.shard.EnumLinksAsync(ctx)
	defer func'''))
ok("c18-ok-inline",(F,'''	// The name actually existed so we should update the estimated size.
	d.removeFromEstimatedSize(link.Name, link.Cid)

	return d.node.RemoveNodeLink(name)''','''	if err := d.node.RemoveNodeLink(name); err != nil {
		return err
	}
	d.removeFromEstimatedSize(name, link.Cid)
	return nil'''))
ok("c18-ok-initlit",(F,'''	basicDir := new(BasicDirectory)
	basicDir.node = node
	basicDir.dserv = dserv

	// Scan''','''	basicDir := &BasicDirectory{node: node, dserv: dserv}

	// Scan'''))
ok("c18-ok-convenum",(F,'''	for _, lnk := range d.node.Links() {
		err = hamtDir.shard.SetLink(ctx, lnk.Name, lnk)
		if err != nil {
			return nil, err
		}
	}
''','''	if err := d.ForEachLink(ctx, func(lnk *ipld.Link) error {
		return shard.SetLink(ctx, lnk.Name, lnk)
	}); err != nil {
		return nil, err
	}
'''))
CASES=[c for c in CASES if c]
