H='hamt/hamt.go'; D='io/directory.go'; F='file/unixfile.go'
CASES=[]
def b(n,*eds): CASES.append((n,["C15"],list(eds),'bad'))
def ok(n,*eds): CASES.append((n,["all"],list(eds),'ok'))
b("c15-prefixname",(H,'''				formattedLink := sv.val
				formattedLink.Name = sv.key
''','''				formattedLink := sv.val
'''))
b("c15-size",(H,'''					Name: nextShard.key,
					Size: nextShard.val.Size,''','''					Name: nextShard.key,'''))
b("c15-padlen",(H,'''	switch ds.childLinkType''','''	switch ds.childLinkType''')) if False else None
b("c15-skipfirst",(H,'''	for idx, lnk := range ds.childer.links {''','''	for idx, lnk := range ds.childer.links {
		if idx > 0 && lnk.Cid == ds.childer.links[idx-1].Cid {
			continue
		}'''))
b("c15-loadedval",(H,'''			if nextShard.val != nil {
				formattedLink''','''			if nextShard.key != "" && nextShard.val != nil && nextShard.val.Size > 0 {
				formattedLink'''))
b("c15-losequeue",(H,'''				res.cids = append(res.cids, lnk.Cid)
''','''				res.cids = append(res.cids[:0:0], lnk.Cid)
'''))
b("c15-linknotchild",(H,'''		if nextShard := ds.childer.children[idx]; nextShard == nil {
			lnkLinkType''','''		nextShard := ds.childer.children[idx]
		if lnk != nil && len(lnk.Name) > ds.maxpadlen {
			nextShard = nil
		}
		if nextShard == nil {
			lnkLinkType'''))
b("c15-noshardout",(H,'''				for _, nextShard := range feedChildren.shards {
					nextChildren, err := nextShard.walkChildren(processShardValues)
					if err != nil {
						return err
					}
''','''				for _, nextShard := range feedChildren.shards {
					nextChildren, err := nextShard.walkChildren(processShardValues)
					if err != nil {
						return err
					}
					if len(nextChildren.shards) == 0 {
						continue
					}
'''))
b("c15-visitbug",(H,'''					if shouldVisit {
						linksToVisit''','''					if shouldVisit && nextCid.Defined() {
						linksToVisit'''))
b("c15-globalset",(H,'''	visitSet := cid.NewSet()
''','''	visitSet := globalSet
'''),(H,'''type listCidsAndShards struct''','''var globalSet = cid.NewSet()

type listCidsAndShards struct'''))
b("c15-ignoreerr",(H,'''					if optNode.Err != nil {
						return optNode.Err
					}
''','''					if optNode.Err != nil {
						continue
					}
'''))
b("c15-stopstream",(H,'''					nextShard, err := NewHamtFromDag(dserv, optNode.Node)
''','''					if optNode.Node == nil {
						break
					}
					nextShard, err := NewHamtFromDag(dserv, optNode.Node)
'''))
b("c15-dropqueue",(H,'''			if next == nil {
				next = nextNodes
				send = feed
			} else {
				todoQueue''','''			if next == nil {
				next = nextNodes
				send = feed
			} else if len(nextNodes.cids) > 0 {
				todoQueue'''))
b("c15-queueorder",(H,'''				next = todoQueue[0]
				todoQueue = todoQueue[1:]''','''				next = todoQueue[len(todoQueue)-1]
				todoQueue = todoQueue[1:]'''))
b("c15-early",(H,'''			if inProgress == 0 && next == nil {''','''			if next == nil {'''))
b("c15-early2",(H,'''			if inProgress == 0 && next == nil {''','''			if inProgress == 0 {'''))
b("c15-notoffer",(H,'''				next = nextNodes
				send = feed
''','''				next = nextNodes
'''))
b("c15-overwrite",(H,'''			if next == nil {
				next = nextNodes
				send = feed
			} else {
				todoQueue = append(todoQueue, nextNodes)
			}''','''			if next != nil {
				todoQueue = append(todoQueue, nextNodes)
			}
			next = nextNodes
			send = feed'''))
b("c15-root",(H,'''		shards: []*Shard{root},
	}

dispatcherLoop''','''		shards: root.childer.children,
	}

dispatcherLoop'''))
b("c15-cut1",(H,'''	// A cancelled enumeration ends early without delivering an error.
	if err := ctx.Err(); err != nil {
		return links, err
	}
''',''))
b("c15-cut2",(D,'''	// A cancelled enumeration ends early without delivering an error.
	if err := ctx.Err(); err != nil {
		return false, err
	}
''',''))
b("c15-cutpos",(H,'''	linkResults := ds.EnumLinksAsync(ctx)

''','''	linkResults := ds.EnumLinksAsync(ctx)
	if err := ctx.Err(); err != nil {
		return links, err
	}

'''),(H,'''	// A cancelled enumeration ends early without delivering an error.
	if err := ctx.Err(); err != nil {
		return links, err
	}
''',''))
b("c15-eachswallow",(H,'''		if err := cb(c); err != nil {
			return err
		}
	}

	return nil
}''','''		if err := cb(c); err != nil {
			break
		}
	}

	return nil
}'''))
b("c15-eachskip",(H,'''		c, err := s.get(ctx, i)
		if err != nil {
			return err
		}

		if err := cb(c)''','''		c, err := s.get(ctx, i)
		if err != nil {
			return err
		}
		if i > 0 && c == s.children[i-1] {
			continue
		}

		if err := cb(c)'''))
b("c15-walkloaded",(H,'''		} else {
			if err := s.walkTrie(ctx, cb); err != nil {
				return err
			}
		}''','''		} else if len(s.childer.children) > 0 {
			if err := s.walkTrie(ctx, cb); err != nil {
				return err
			}
		}''')) if False else None
b("c15-loadlink",(H,'''	lnk := s.link(sliceIndex)
	lnkLinkType''','''	lnk := s.link(len(s.links) - 1 - sliceIndex)
	lnkLinkType'''))
b("c15-foreachname",(H,'''		lnk := sv.val
		lnk.Name = sv.key

		return f(lnk)''','''		return f(sv.val)'''))
b("c15-basicskip",(D,'''	for _, l := range d.node.Links() {
		if err := f(l); err != nil {''','''	for _, l := range d.node.Links() {
		if l.Name == "" {
			continue
		}
		if err := f(l); err != nil {'''))
b("c15-basicstop",(D,'''	for _, l := range d.node.Links() {
		if err := f(l); err != nil {
			return err
		}''','''	for _, l := range d.node.Links() {
		if err := f(l); err != nil {
			if err == os.ErrNotExist {
				return nil
			}
			return err
		}'''))
b("c15-asyncskip",(D,'''		for _, l := range d.node.Links() {
			select {''','''		for i, l := range d.node.Links() {
			if i > 4096 {
				return
			}
			select {'''))
b("c15-emitdrop",(H,'''			emitResult(ctx, linkResults, format.LinkResult{Link: formattedLink, Err: nil})
			return nil''','''			if formattedLink.Size != 0 {
				emitResult(ctx, linkResults, format.LinkResult{Link: formattedLink, Err: nil})
			}
			return nil'''))
b("c15-emitnonblock",(H,'''	select {
	case linkResults <- r:
	case <-ctx.Done():
	}
''','''	select {
	case linkResults <- r:
	default:
	}
'''))
ok("c15-r-lister",(H,'''	for idx, lnk := range ds.childer.links {
		if nextShard := ds.childer.children[idx]; nextShard == nil {
			lnkLinkType, err''','''	for idx := range ds.childer.links {
		lnk := ds.childer.links[idx]
		nextShard := ds.childer.child(idx)
		if nextShard == nil {
			lnkLinkType, err'''))
ok("c15-r-format",(H,'''				formattedLink := &ipld.Link{
					Name: nextShard.key,
					Size: nextShard.val.Size,
					Cid:  nextShard.val.Cid,
				}
				if err := processLinkValues(formattedLink); err != nil {''','''				entry := *nextShard.val
				entry.Name = nextShard.key
				if err := processLinkValues(&entry); err != nil {'''))
ok("c15-r-dispatch",(H,'''			if len(todoQueue) > 0 {
				next = todoQueue[0]
				todoQueue = todoQueue[1:]
			} else {
				next = nil
				send = nil
			}''','''			if len(todoQueue) == 0 {
				next, send = nil, nil
			} else {
				next, todoQueue = todoQueue[0], todoQueue[1:]
			}'''))
ok("c15-r-dispatch2",(H,'''			if len(todoQueue) > 0 {
				next = todoQueue[0]
				todoQueue = todoQueue[1:]
			} else {''','''			if n := len(todoQueue); n > 0 {
				next = todoQueue[n-1]
				todoQueue = todoQueue[:n-1]
			} else {'''))
ok("c15-r-each",(H,'''	for i := range s.children {
		c, err := s.get(ctx, i)
		if err != nil {
			return err
		}

		if err := cb(c); err != nil {
			return err
		}
	}
''','''	for i := 0; i < len(s.children); i++ {
		c, err := s.get(ctx, i)
		if err == nil {
			err = cb(c)
		}
		if err != nil {
			return err
		}
	}
'''))
ok("c15-r-walktrie",(H,'''		if s.isValueNode() {
			if err := cb(s); err != nil {
				return err
			}
		} else {
			if err := s.walkTrie(ctx, cb); err != nil {
				return err
			}
		}
		return nil''','''		if !s.isValueNode() {
			return s.walkTrie(ctx, cb)
		}
		return cb(s)'''))
ok("c15-r-worker",(H,'''				for _, nextShard := range feedChildren.shards {
					nextChildren, err := nextShard.walkChildren(processShardValues)
					if err != nil {
						return err
					}

					select {
					case out <- nextChildren:
					case <-errGrpCtx.Done():
						return nil
					}
				}
''','''				walk := func(s *Shard) (bool, error) {
					nextChildren, err := s.walkChildren(processShardValues)
					if err != nil {
						return false, err
					}

					select {
					case out <- nextChildren:
						return true, nil
					case <-errGrpCtx.Done():
						return false, nil
					}
				}
				for _, nextShard := range feedChildren.shards {
					if more, err := walk(nextShard); !more {
						return err
					}
				}
'''))
b("c15-deadline",(H,'''	linkResults := ds.EnumLinksAsync(ctx)
''','''	tctx, cancel := context.WithTimeout(ctx, 1<<30)
	defer cancel()
	linkResults := ds.EnumLinksAsync(tctx)
'''))
b("c15-deadline2",(H,'''	grp, errGrpCtx := errgroup.WithContext(ctx)
''','''	ctx, cancel := context.WithTimeout(ctx, 1<<30)
	defer cancel()
	grp, errGrpCtx := errgroup.WithContext(ctx)
'''))
ok("c15-r-cancel",(H,'''	linkResults := ds.EnumLinksAsync(ctx)
''','''	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	linkResults := ds.EnumLinksAsync(cctx)
'''))
CASES=[c for c in CASES if c]
