H='hamt/hamt.go'; D='io/directory.go'; F='file/unixfile.go'
CASES=[]
def b(n,*eds): CASES.append((n,["C16"],list(eds),'bad'))
def ok(n,*eds): CASES.append((n,["all"],list(eds),'ok'))
WORK_OUT='''					nextShard, err := NewHamtFromDag(dserv, optNode.Node)
					if err != nil {
						return err
					}

					nextChildren, err := nextShard.walkChildren(processShardValues)
					if err != nil {
						return err
					}

					select {
					case out <- nextChildren:
					case <-errGrpCtx.Done():
						return nil
					}
'''
b("c16-workerctx",(H,WORK_OUT,WORK_OUT.replace("errGrpCtx","ctx")))
b("c16-donectx",(H,'''				case done <- struct{}{}:
				case <-errGrpCtx.Done():''','''				case done <- struct{}{}:
				case <-ctx.Done():'''))
b("c16-dispctx",(H,'''		case <-errGrpCtx.Done():
			break dispatcherLoop''','''		case <-ctx.Done():
			break dispatcherLoop'''))
b("c16-nolock",(H,'''					visitlk.Lock()
					shouldVisit = visit(nextCid)
					visitlk.Unlock()
''','''					_ = &visitlk
					shouldVisit = visit(nextCid)
'''))
b("c16-locallock",(H,'''	var visitlk sync.Mutex
''',''),(H,'''				var linksToVisit []cid.Cid
''','''				var linksToVisit []cid.Cid
				var visitlk sync.Mutex
'''))
b("c16-noclosefeed",(H,'''	close(feed)
	return grp.Wait()''','''	return grp.Wait()'''))
b("c16-closelate",(H,'''	close(feed)
	return grp.Wait()''','''	err := grp.Wait()
	close(feed)
	return err'''))
b("c16-nowait",(H,'''	close(feed)
	return grp.Wait()''','''	close(feed)
	if err := ctx.Err(); err != nil {
		return err
	}
	return grp.Wait()'''))
b("c16-plaingroup",(H,'''	grp, errGrpCtx := errgroup.WithContext(ctx)
''','''	grp, errGrpCtx := &errgroup.Group{}, ctx
'''))
b("c16-sendhard",(H,'''	select {
	case linkResults <- r:
	case <-ctx.Done():
	}
''','''	linkResults <- r
'''))
b("c16-todoctx",(H,'''	ctx, cancel := context.WithCancel(ctx)
	go func() {''','''	ctx, cancel := context.WithCancel(context.Background())
	go func() {'''))
b("c16-noclose",(H,'''		defer close(linkResults)
		defer cancel()

		err :=''','''		defer cancel()

		err :='''),(H,'''			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
	}()''','''			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
			return
		}
		close(linkResults)
	}()'''))
b("c16-errafterclose",(H,'''		defer close(linkResults)
		defer cancel()
''','''		defer cancel()
'''),(H,'''		if err != nil {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
	}()''','''		close(linkResults)
		if err != nil {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
	}()'''))
b("c16-doneearly",(H,'''				chNodes := dserv.GetMany(errGrpCtx, linksToVisit)
''','''				select {
				case done <- struct{}{}:
				case <-errGrpCtx.Done():
				}
				chNodes := dserv.GetMany(errGrpCtx, linksToVisit)
'''),(H,'''				select {
				case done <- struct{}{}:
				case <-errGrpCtx.Done():
				}
			}
			return nil''','''			}
			return nil'''))
b("c16-doneskip",(H,'''				chNodes := dserv.GetMany(errGrpCtx, linksToVisit)
''','''				if len(linksToVisit) == 0 && len(feedChildren.shards) == 0 {
					continue
				}
				chNodes := dserv.GetMany(errGrpCtx, linksToVisit)
'''))
b("c16-workerstop",(H,'''					if shouldVisit {
						linksToVisit = append(linksToVisit, nextCid)
					}
''','''					if !shouldVisit {
						return nil
					}
					linksToVisit = append(linksToVisit, nextCid)
'''))
b("c16-cachechild",(H,'''				formattedLink := sv.val
				formattedLink.Name = sv.key
''','''				formattedLink := sv.val
				formattedLink.Name = sv.key
				ds.childer.children[idx] = sv
'''))
b("c16-aliaslink",(H,'''				formattedLink := sv.val
				formattedLink.Name = sv.key
''','''				formattedLink := lnk
				formattedLink.Name = sv.key
'''))
b("c16-loadedname",(H,'''				formattedLink := &ipld.Link{
					Name: nextShard.key,
					Size: nextShard.val.Size,
					Cid:  nextShard.val.Cid,
				}
''','''				formattedLink := nextShard.val
				formattedLink.Name = nextShard.key
'''))
b("c16-counter",(H,'''		err := parallelShardWalk(ctx, ds, ds.dserv, func(formattedLink *ipld.Link) error {
''','''		n := 0
		err := parallelShardWalk(ctx, ds, ds.dserv, func(formattedLink *ipld.Link) error {
			n++
'''))
b("c16-visitedslice",(H,'''	var visitlk sync.Mutex
''','''	var seen []cid.Cid
	var visitlk sync.Mutex
'''),(H,'''				chNodes := dserv.GetMany''','''				seen = append(seen, linksToVisit...)
				chNodes := dserv.GetMany'''))
b("c16-nodrain",(D,'''		cancel()
		// Wait for the enumeration to end: it reads the shards that the
		// caller is about to modify.
		for range linkResults {
		}
''','''		cancel()
'''))
b("c16-basicctx",(D,'''			case <-ctx.Done():
				return
			}
		}
	}()''','''			case <-context.Background().Done():
				return
			}
		}
	}()'''))
b("c16-basicnoclose",(D,'''		defer close(linkResults)
		for _, l := range d.node.Links() {
			select {
			case linkResults <- format.LinkResult{
				Link: l,
				Err:  nil,
			}:
			case <-ctx.Done():
				return
			}
		}
''','''		for _, l := range d.node.Links() {
			select {
			case linkResults <- format.LinkResult{
				Link: l,
				Err:  nil,
			}:
			case <-ctx.Done():
				return
			}
		}
		close(linkResults)
'''))
b("c16-sharediter",(F,'''	nd    *dag.ProtoNode
	size  int64''','''	nd    *dag.ProtoNode
	dir   uio.Directory
	size  int64'''),(F,'''	dir, err := uio.NewDirectoryFromNode(d.dserv, d.nd)
	if err != nil {
		return err
	}
	return dir.ForEachLink(d.ctx, f)''','''	return d.dir.ForEachLink(d.ctx, f)'''),(F,'''	if _, err := uio.NewDirectoryFromNode(dserv, nd); err != nil {
		return nil, err
	}
''','''	dir, err := uio.NewDirectoryFromNode(dserv, nd)
	if err != nil {
		return nil, err
	}
'''),(F,'''		nd:   nd.Copy().(*dag.ProtoNode),
''','''		nd:   nd.Copy().(*dag.ProtoNode),
		dir:  dir,
'''))
b("c16-errchunbuf",(F,'''make(chan error, 1)''','''make(chan error)'''))
b("c16-entriesnoctx",(F,'''			select {
			case fileCh <- link:
			case <-d.ctx.Done():
				return d.ctx.Err()
			}
			return nil''','''			fileCh <- link
			return nil'''))
b("c16-noclosefiles",(F,'''		close(errCh)
		close(fileCh)
''','''		close(errCh)
'''))
b("c16-closefirst",(F,'''		errCh <- d.forEachLink(func''','''		defer close(fileCh)
		errCh <- d.forEachLink(func'''))
ok("c16-r-named",(H,'''	go func() {
		defer close(linkResults)
		defer cancel()

		err := parallelShardWalk(ctx, ds, ds.dserv, func(formattedLink *ipld.Link) error {
			emitResult(ctx, linkResults, format.LinkResult{Link: formattedLink, Err: nil})
			return nil
		})
		if err != nil {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
	}()
	return linkResults
}
''','''	go ds.enumerate(ctx, cancel, linkResults)
	return linkResults
}

func (ds *Shard) enumerate(ctx context.Context, cancel func(), linkResults chan format.LinkResult) {
	defer close(linkResults)
	defer cancel()

	err := parallelShardWalk(ctx, ds, ds.dserv, func(formattedLink *ipld.Link) error {
		emitResult(ctx, linkResults, format.LinkResult{Link: formattedLink})
		return nil
	})
	if err != nil {
		emitResult(ctx, linkResults, format.LinkResult{Err: err})
	}
}
'''))
ok("c16-r-visit",(H,'''					var shouldVisit bool

					visitlk.Lock()
					shouldVisit = visit(nextCid)
					visitlk.Unlock()

					if shouldVisit {
						linksToVisit''','''					if lockedVisit(&visitlk, visit, nextCid) {
						linksToVisit'''),(H,'''func emitResult(''','''func lockedVisit(lk *sync.Mutex, visit func(cid.Cid) bool, c cid.Cid) bool {
	lk.Lock()
	defer lk.Unlock()
	return visit(c)
}

func emitResult('''))
ok("c16-r-sendhelper",(H,WORK_OUT,WORK_OUT.replace('''					select {
					case out <- nextChildren:
					case <-errGrpCtx.Done():
						return nil
					}
''','''					if !sendChildren(errGrpCtx, out, nextChildren) {
						return nil
					}
''')),(H,'''func emitResult(''','''func sendChildren(ctx context.Context, out chan<- *listCidsAndShards, c *listCidsAndShards) bool {
	select {
	case out <- c:
		return true
	case <-ctx.Done():
		return false
	}
}

func emitResult('''))
ok("c16-r-deferclose",(H,'''	close(feed)
	return grp.Wait()''','''	close(feed)
	err := grp.Wait()
	if err != nil {
		return err
	}
	return nil'''))
ok("c16-r-worker",(H,'''	for i := 0; i < concurrency; i++ {
		grp.Go(func() error {
			for feedChildren''','''	worker := func() error {
			for feedChildren'''),(H,'''				case <-errGrpCtx.Done():
				}
			}
			return nil
		})
	}
''','''				case <-errGrpCtx.Done():
				}
			}
			return nil
	}
	for i := 0; i < concurrency; i++ {
		grp.Go(worker)
	}
'''))
ok("c16-r-entries",(F,'''	go func() {
		errCh <- d.forEachLink(func(link *ipld.Link) error {
			if d.ctx.Err() != nil {
				return d.ctx.Err()
			}
			select {
			case fileCh <- link:
			case <-d.ctx.Done():
				return d.ctx.Err()
			}
			return nil
		})

		close(errCh)
		close(fileCh)
	}()
''','''	go d.feed(fileCh, errCh)
'''),(F,'''func (d *ufsDirectory) Size()''','''func (d *ufsDirectory) feed(fileCh chan<- *ipld.Link, errCh chan<- error) {
	defer close(fileCh)
	defer close(errCh)
	err := d.forEachLink(func(link *ipld.Link) error {
		select {
		case <-d.ctx.Done():
			return d.ctx.Err()
		default:
		}
		select {
		case fileCh <- link:
			return nil
		case <-d.ctx.Done():
			return d.ctx.Err()
		}
	})
	errCh <- err
}

func (d *ufsDirectory) Size()'''))
ok("c16-r-basic",(D,'''		for _, l := range d.node.Links() {
			select {
			case linkResults <- format.LinkResult{
				Link: l,
				Err:  nil,
			}:
			case <-ctx.Done():
				return
			}
		}
''','''		links := d.node.Links()
		for i := range links {
			res := format.LinkResult{Link: links[i]}
			select {
			case <-ctx.Done():
				return
			case linkResults <- res:
			}
		}
'''))
ok("c16-r-consume",(H,'''	for linkResult := range linkResults {
		if linkResult.Err != nil {
			return links, linkResult.Err
		}
		links = append(links, linkResult.Link)
	}
''','''	for {
		linkResult, more := <-linkResults
		if !more {
			break
		}
		if err := linkResult.Err; err != nil {
			return links, err
		}
		links = append(links, linkResult.Link)
	}
'''))
