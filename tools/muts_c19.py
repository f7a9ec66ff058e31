D='io/directory.go'
H='hamt/hamt.go'
M='mod/dagmodifier.go'
R='io/dagreader.go'
U='file/unixfile.go'
CASES=[]
def b(n,*e): CASES.append((n,["C19"],list(e),'bad'))
def ok(n,*e): CASES.append((n,["C19"],list(e),'ok'))
b("c19-dirnocopy",(D,"protoBufNode.Copy().(*mdag.ProtoNode)","protoBufNode"))
ok("c19-modnocopy",(M,"		curNode:   from.Copy(),","		curNode:   from,"))
b("c19-childerlinks",(H,"		s.links = make([]*ipld.Link, len(links))\n		copy(s.links, links)","		s.links = links"))
b("c19-appendlinks",(H,"		s.links = make([]*ipld.Link, len(links))\n		copy(s.links, links)","		s.links = links[:len(links):len(links)]"))
b("c19-valuenocopy",(H,"	lnk2 := *lnk\n",""),(H,"	s.val = &lnk2","	s.val = lnk"))
b("c19-setlink",(H,"""	newLink := ipld.Link{
		Name: lnk.Name,
		Size: lnk.Size,
		Cid:  lnk.Cid,
	}
""","	newLink := lnk\n"),(H,"hv, name, &newLink)","hv, name, newLink)"))
b("c19-modinplace",(M,"""			lnk := *node.Links()[i]
			lnk.Cid = k
			node.Links()[i] = &lnk
""","			node.Links()[i].Cid = k\n"))
b("c19-modinplace2",(M,"			lnk := *node.Links()[i]\n			lnk.Cid = k\n			node.Links()[i] = &lnk\n","			lnk := node.Links()[i]\n			lnk.Cid = k\n			node.Links()[i] = lnk\n"))
b("c19-getnodenocopy",(M,"	return dm.curNode.Copy(), nil","	return dm.curNode, nil"),(M,"trickle.Append(dm.ctx, nd.Copy(), db)","trickle.Append(dm.ctx, nd, db)"))
b("c19-trunc",(M,"dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))","dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))"),(M,"	return dm.curNode.Copy(), nil","	return dm.curNode, nil"))
b("c19-flush",(M,"dm.modifyDag(dm.curNode.Copy(), dm.writeStart)","dm.modifyDag(dm.curNode, dm.writeStart)"),(M,"		curNode:   from.Copy(),","		curNode:   from,"))
b("c19-addchild",(D,"	link, err := ipld.MakeLink(node)\n	if err != nil {\n		return err\n	}\n\n	return d.addLinkChild","	link, err := ipld.MakeLink(node)\n	if err != nil {\n		return err\n	}\n	if pn, ok := node.(*mdag.ProtoNode); ok {\n		pn.SetCidBuilder(d.node.CidBuilder())\n	}\n\n	return d.addLinkChild"))
b("c19-hamtbuilder",(H,"	ds.childer.makeChilder(","	pbnd.SetCidBuilder(nil)\n	ds.childer.makeChilder(") if False else (H,"	fsn, err := format.FSNodeFromBytes(pbnd.Data())","	pbnd.SetData(pbnd.Data())\n	fsn, err := format.FSNodeFromBytes(pbnd.Data())"))
b("c19-walk",(H,"				sv, err := ds.makeShardValue(lnk)\n				if err != nil {\n					return nil, err\n				}\n				formattedLink := sv.val\n				formattedLink.Name = sv.key\n","				formattedLink := lnk\n				formattedLink.Name = lnk.Name[ds.maxpadlen:]\n"))
b("c19-rawleaf",(M,"			bytes := make([]byte, len(origData))\n","			bytes := origData\n"),(M,"		curNode:   from.Copy(),","		curNode:   from,"),(M,"dm.modifyDag(dm.curNode.Copy(), dm.writeStart)","dm.modifyDag(dm.curNode, dm.writeStart)"))
b("c19-sortlinks",(U,"	size, err := nd.Size()","	sort.Slice(nd.Links(), func(i, j int) bool { return nd.Links()[i].Name < nd.Links()[j].Name })\n	nd.Links()[0].Name = \"\"\n	size, err := nd.Size()"),(U,'import (','import (\n	"sort"'))
b("c19-sortonly",(U,"	size, err := nd.Size()","	sort.Slice(nd.Links(), func(i, j int) bool { return nd.Links()[i].Name < nd.Links()[j].Name })\n	size, err := nd.Size()"),(U,'import (','import (\n	"sort"'))
b("c19-sizes",(R,"	switch n := n.(type) {","	if pn, k := n.(*mdag.ProtoNode); k && len(pn.Links()) == 0 {\n		pn.SetLinks(nil)\n	}\n	switch n := n.(type) {"))
b("c19-resolve",('io/resolve.go',"func ResolveUnixfsOnce(","func drop(n ipld.Node, name string) {\n	if p, ok := n.(*dag.ProtoNode); ok {\n		_ = p.RemoveNodeLink(name)\n	}\n}\n\nfunc ResolveUnixfsOnce("),('io/resolve.go',"	pn, ok := nd.(*dag.ProtoNode)","	drop(nd, \"\")\n	pn, ok := nd.(*dag.ProtoNode)"))
b("c19-lostcopy",(M,"		curNode:   from.Copy(),","		curNode:   keepOf(from),"),(M,"// WriteAt will modify","func keepOf(n ipld.Node) ipld.Node {\n	if len(n.Links()) == 0 {\n		return n.Copy()\n	}\n	return n\n}\n\n// WriteAt will modify"),(M,"dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))","dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))"))
b("c19-data",(M,"			_, err = dm.wrBuf.Read(fsn.Data()[offset:])","			_, err = dm.wrBuf.Read(nd0.Data()[offset:])"),(M,"		curNode:   from.Copy(),","		curNode:   from,"),(M,"dm.modifyDag(dm.curNode.Copy(), dm.writeStart)","dm.modifyDag(dm.curNode, dm.writeStart)"))
b("c19-hsetlink2",(H,"	newLink.Name = ds.linkNamePrefix(0) + name","	lnk.Name = ds.linkNamePrefix(0) + name"))
b("c19-stale",(M,"	nnode, err := dm.dagserv.Get(dm.ctx, thisc)\n	if err != nil {\n		return err\n	}\n","	nnode := dm.curNode\n	if !thisc.Equals(nnode.Cid()) {\n		nnode, err = dm.dagserv.Get(dm.ctx, thisc)\n		if err != nil {\n			return err\n		}\n	}\n"),(M,"trickle.Append(dm.ctx, nd.Copy(), db)","trickle.Append(dm.ctx, nd, db)"),(M,"	return dm.curNode.Copy(), nil","	return dm.curNode, nil"))

ok("c19-helper",(M,"// WriteAt will modify","func cloned(n ipld.Node) ipld.Node { return n.Copy() }\n\n// WriteAt will modify"),(M,"		curNode:   from.Copy(),","		curNode:   cloned(from),"),(M,"	return dm.curNode.Copy(), nil","	return cloned(dm.curNode), nil"),(M,"dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))","dm.dagTruncate(dm.ctx, cloned(dm.curNode), uint64(size))"),(M,"dm.modifyDag(dm.curNode.Copy(), dm.writeStart)","dm.modifyDag(cloned(dm.curNode), dm.writeStart)"))
ok("c19-helpermethod",(M,"// WriteAt will modify","func (dm *DagModifier) snapshot() ipld.Node { return dm.curNode.Copy() }\n\n// WriteAt will modify"),(M,"	return dm.curNode.Copy(), nil","	return dm.snapshot(), nil"),(M,"dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))","dm.dagTruncate(dm.ctx, dm.snapshot(), uint64(size))"),(M,"dm.modifyDag(dm.curNode.Copy(), dm.writeStart)","dm.modifyDag(dm.snapshot(), dm.writeStart)"))
ok("c19-deephelper",(M,"// WriteAt will modify","func cloned(n ipld.Node) ipld.Node { return cloned2(n) }\nfunc cloned2(n ipld.Node) ipld.Node { return cloned3(n) }\nfunc cloned3(n ipld.Node) ipld.Node { return n.Copy() }\n\n// WriteAt will modify"),(M,"		curNode:   from.Copy(),","		curNode:   cloned(from),"),(M,"	return dm.curNode.Copy(), nil","	return cloned(dm.curNode), nil"),(M,"dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))","dm.dagTruncate(dm.ctx, cloned(dm.curNode), uint64(size))"),(M,"dm.modifyDag(dm.curNode.Copy(), dm.writeStart)","dm.modifyDag(cloned(dm.curNode), dm.writeStart)"))
ok("c19-newlinkfn",(M,"			lnk := *node.Links()[i]\n			lnk.Cid = k\n			node.Links()[i] = &lnk\n","			node.Links()[i] = retarget(node.Links()[i], k)\n"),(M,"// WriteAt will modify","func retarget(l *ipld.Link, k cid.Cid) *ipld.Link {\n	out := new(ipld.Link)\n	*out = *l\n	out.Cid = k\n	return out\n}\n\n// WriteAt will modify"))
ok("c19-newlinklit",(M,"			lnk := *node.Links()[i]\n			lnk.Cid = k\n			node.Links()[i] = &lnk\n","			old := node.Links()[i]\n			node.Links()[i] = &ipld.Link{Name: old.Name, Size: old.Size, Cid: k}\n"))
ok("c19-appendcopy",(H,"		s.links = make([]*ipld.Link, len(links))\n		copy(s.links, links)","		s.links = append([]*ipld.Link(nil), links...)"))
ok("c19-lnkcopyhelper",(H,"	lnk2 := *lnk\n","	lnk2 := sameLink(lnk)\n"),(H,"	s.val = &lnk2","	s.val = lnk2"),(H,"// Set sets 'name' = nd in the HAMT\nfunc (ds *Shard) Set(","func sameLink(l *ipld.Link) *ipld.Link {\n	c := *l\n	return &c\n}\n\n// Set sets 'name' = nd in the HAMT\nfunc (ds *Shard) Set("),(H,"""	newLink := ipld.Link{
		Name: lnk.Name,
		Size: lnk.Size,
		Cid:  lnk.Cid,
	}
""","	newLink := sameLink(lnk)\n"),(H,"hv, name, &newLink)","hv, name, newLink)"))
ok("c19-linksvar",(M,"	var cur uint64\n	for i, bs := range fsn.BlockSizes() {\n		// We found","	var cur uint64\n	links := node.Links()\n	for i, bs := range fsn.BlockSizes() {\n		// We found"),(M,"			lnk := *node.Links()[i]\n			lnk.Cid = k\n			node.Links()[i] = &lnk\n","			lnk := *links[i]\n			lnk.Cid = k\n			links[i] = &lnk\n"))
ok("c19-dirvar",(D,"		return &DynamicDirectory{newBasicDirectoryFromNode(dserv, protoBufNode.Copy().(*mdag.ProtoNode))}, nil","		own := protoBufNode.Copy().(*mdag.ProtoNode)\n		basic := newBasicDirectoryFromNode(dserv, own)\n		return &DynamicDirectory{Directory: basic}, nil"))
ok("c19-trunccopy",(M,"func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64) (ipld.Node, error) {","func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64) (ipld.Node, error) {\n	n = n.Copy()"),(M,"dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))","dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))"))
