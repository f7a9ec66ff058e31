H="importer/helpers/dagbuilder.go"
T="importer/trickle/trickledag.go"
M="mod/dagmodifier.go"
S="hamt/hamt.go"
D="io/directory.go"
CASES=[
("c07-fsn-none",["C07"],[(H,"	node.dag.SetCidBuilder(db.GetCidBuilder())\n","")],"bad"),
("c07-raw-ignore",["C07"],[(H,"		if db.cidBuilder == nil {\n			return dag.NewRawNode(data), nil\n		}","		if db.cidBuilder == nil || len(data) == 0 {\n			return dag.NewRawNode(data), nil\n		}")],"bad"),
("c07-raw-empty",["C07"],[(H,"	if db.rawLeaves {\n","	if db.rawLeaves && len(data) > 0 {\n")],"bad"),
("c07-new-raw",["C07"],[(H,"		rawLeaves:  dbp.RawLeaves,","		rawLeaves:  dbp.RawLeaves || dbp.NoCopy,")],"bad"),
("c07-new-builder",["C07"],[(H,"		cidBuilder: dbp.CidBuilder,\n","")],"bad"),
("c07-leaf-fresh",["C07"],[(T,"			leaf, err := db.NewLeafNode(data, ft.TRaw)","			var leaf ipld.Node = dag.NodeWithData(ft.WrapData(data))")],"bad"),
("c07-mod-nobuilder",["C07"],[(M,"			nd.SetCidBuilder(nd0.CidBuilder())\n","")],"bad"),
("c07-mod-prefix",["C07"],[(M,"			nd.SetCidBuilder(nd0.CidBuilder())\n","			nd.SetCidBuilder(dm.Prefix)\n")],"bad"),
("c07-mod-raw",["C07"],[(M,"mdag.NewRawNodeWPrefix(bytes, nd0.Cid().Prefix())","mdag.NewRawNodeWPrefix(bytes, dm.Prefix)")],"bad"),
("c07-trunc-raw",["C07"],[(M,"return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())","return mdag.NewRawNode(nd.RawData()[:size]), nil")],"bad"),
("c07-trunc-proto",["C07"],[(M,"			nd.SetData(ft.WrapData(fsn.Data()[:size]))\n			return nd, nil","			return mdag.NodeWithData(ft.WrapData(fsn.Data()[:size])), nil")],"bad"),
("c07-append-raw",["C07"],[(M,"			RawLeaves:  dm.RawLeaves,\n","			RawLeaves:  dm.RawLeaves && dm.Prefix.Version > 0,\n")],"bad"),
("c07-append-builder",["C07"],[(M,"			CidBuilder: dm.Prefix,\n","			CidBuilder: dm.curNode.Cid().Prefix(),\n")],"bad"),
("c07-new-version",["C07"],[(M,"	if prefix.Version > 0 {","	if prefix.Version > 1 {")],"bad"),
("c07-new-hash",["C07"],[(M,"	prefix.Codec = cid.DagProtobuf\n","	prefix.Codec = cid.DagProtobuf\n	prefix.MhType = 0x12\n")],"bad"),
("c07-new-codec",["C07"],[(M,"	prefix.Codec = cid.DagProtobuf\n","")],"bad"),
("c07-new-rawnode",["C07"],[(M,"	if prefix.Version > 0 {","	if _, isRaw := from.(*mdag.RawNode); isRaw {")],"bad"),
("c07-fork-none",["C07"],[(S,"		child.builder = ds.builder\n","")],"bad"),
("c07-fork-late",["C07"],[(S,"		child.builder = ds.builder\n",""),(S,"		// Replace this leaf node with the new Shard node.\n","		child.builder = ds.builder\n		// Replace this leaf node with the new Shard node.\n")],"bad"),
("c07-load",["C07"],[(S,"	ds.builder = pbnd.CidBuilder()\n","")],"bad"),
("c07-node",["C07"],[(S,"	out.SetCidBuilder(ds.builder)\n","")],"bad"),
("c07-switch-late",["C07"],[(D,"	shard.SetCidBuilder(d.node.CidBuilder())\n	hamtDir.shard = shard\n","	hamtDir.shard = shard\n"),(D,"	return hamtDir, nil\n","	shard.SetCidBuilder(d.node.CidBuilder())\n	return hamtDir, nil\n")],"bad"),
("c07-switch-none",["C07"],[(D,"	shard.SetCidBuilder(d.node.CidBuilder())\n	hamtDir.shard","	hamtDir.shard")],"bad"),
("c07-basic-none",["C07"],[(D,"	basicDir.SetCidBuilder(d.GetCidBuilder())\n","")],"bad"),
("c07-fromnode",["C07"],[(D,"newBasicDirectoryFromNode(dserv, protoBufNode.Copy().(*mdag.ProtoNode))","newBasicDirectoryFromNode(dserv, mdag.NodeWithData(protoBufNode.Data()))")],"bad"),
("c07-setbasic",["C07"],[(D,"	d.node.SetCidBuilder(builder)\n","	if builder != nil {\n		d.node.SetCidBuilder(builder.WithCodec(cid.DagProtobuf))\n	}\n")],"bad"),
("c07-ref-fsn",["all"],[(H,"	node.dag.SetCidBuilder(db.GetCidBuilder())\n","	node.dag.SetCidBuilder(db.cidBuilder)\n")],"ok"),
("c07-ref-raw",["all"],[(H,'''		if db.cidBuilder == nil {
			return dag.NewRawNode(data), nil
		}
		rawnode, err := dag.NewRawNodeWPrefix(data, db.cidBuilder)
		if err != nil {
			return nil, err
		}
		return rawnode, nil
''','''		return db.rawLeaf(data)
'''),(H,"// NewLeafDataNode builds","func (db *DagBuilderHelper) rawLeaf(data []byte) (ipld.Node, error) {\n	if b := db.GetCidBuilder(); b != nil {\n		return dag.NewRawNodeWPrefix(data, b)\n	}\n	return dag.NewRawNode(data), nil\n}\n\n// NewLeafDataNode builds")],"ok"),
("c07-ref-version",["all"],[(M,"	rawLeaves := false\n	if prefix.Version > 0 {\n		rawLeaves = true\n	}\n","	rawLeaves := prefix.Version != 0\n")],"ok"),
("c07-ref-mod",["all"],[(M,'''			nd := new(mdag.ProtoNode)
			nd.SetData(b)
			nd.SetCidBuilder(nd0.CidBuilder())
''','''			nd := mdag.NodeWithData(b)
			nd.SetCidBuilder(n.Cid().Prefix())
''')],"ok"),
("c07-ref-fork",["all"],[(S,'''		child, err = NewShard(ds.dserv, ds.tableSize)
		if err != nil {
			return nil, err
		}
		child.builder = ds.builder
''','''		child, err = ds.newSubShard()
		if err != nil {
			return nil, err
		}
'''),(S,"// Node serializes","func (ds *Shard) newSubShard() (*Shard, error) {\n	s, err := NewShard(ds.dserv, ds.tableSize)\n	if err != nil {\n		return nil, err\n	}\n	s.SetCidBuilder(ds.CidBuilder())\n	return s, nil\n}\n\n// Node serializes")],"ok"),
("c07-ref-switch",["all"],[(D,"	shard.SetCidBuilder(d.node.CidBuilder())\n	hamtDir.shard = shard\n","	hamtDir.shard = shard\n	hamtDir.SetCidBuilder(d.GetCidBuilder())\n")],"ok"),
]
