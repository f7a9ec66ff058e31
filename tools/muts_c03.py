H="importer/helpers/dagbuilder.go"
B="importer/balanced/builder.go"
T="importer/trickle/trickledag.go"
M="mod/dagmodifier.go"
S="hamt/hamt.go"
CASES=[
("c03-bal-noroot",["C03"],[(B,"	return root, db.Add(root)\n}\n\n// fillNodeRec","	return root, nil\n}\n\n// fillNodeRec")],"bad"),
("c03-bal-single",["C03"],[(B,"	return root, db.Add(root)\n}\n\n// fillNodeRec","	if len(root.Links()) == 0 {\n		return root, nil\n	}\n	return root, db.Add(root)\n}\n\n// fillNodeRec")],"bad"),
("c03-bal-empty",["C03"],[(B,"		return root, db.Add(root)\n	}","		return root, nil\n	}")],"bad"),
("c03-tr-noroot",["C03"],[(T,"	return root, db.Add(root)\n","	return root, err\n")],"bad"),
("c03-addchild-none",["C03"],[(H,"	return db.Add(child)\n","	_ = db\n	return nil\n")],"bad"),
("c03-addchild-raw",["C03"],[(H,"	return db.Add(child)\n","	if fileSize == 0 {\n		return nil\n	}\n	return db.Add(child)\n")],"bad"),
("c03-addchild-parent",["C03"],[(H,"	return db.Add(child)\n","	return db.Add(n.dag)\n")],"bad"),
("c03-last-nocommit",["C03"],[(T,"	filledNode, err := newChild.Commit()\n","	filledNode, err := newChild.GetDagNode()\n")],"bad"),
("c03-last-early",["C03"],[(T,"	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)\n	if err != nil {\n		return err\n	}\n\n	// Update changed child in parent node\n	fsn.RemoveChild(last, db)\n	filledNode, err := newChild.Commit()","	filledNode, err := lastChild.Commit()\n	if err != nil {\n		return err\n	}\n	_, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)\n	if err != nil {\n		return err\n	}\n\n	// Update changed child in parent node\n	fsn.RemoveChild(last, db)")],"bad"),
("c03-append-nocommit",["C03"],[(T,"	_, err = fsn.Commit()\n	if err != nil {\n		return nil, err\n	}\n	return fsn.GetDagNode()","	return fsn.GetDagNode()")],"bad"),
("c03-layer-nocommit",["C03"],[(H,"	_, err := node.Commit()\n	return err\n","	return nil\n")],"bad"),
("c03-expand-noadd",["C03"],[(M,"	err = dm.dagserv.Add(dm.ctx, nnode)\n	if err != nil {\n		return err\n	}\n	dm.dropReader()\n	dm.curNode = nnode\n	return nil\n}\n\n// dropReader","	dm.dropReader()\n	dm.curNode = nnode\n	return nil\n}\n\n// dropReader")],"bad"),
("c03-flush-noadd",["C03"],[(M,"		err = dm.dagserv.Add(dm.ctx, nnode)\n		if err != nil {\n			return err\n		}\n	}\n\n	dm.curNode","	}\n\n	dm.curNode")],"bad"),
("c03-trunc-noadd",["C03"],[(M,"	err = dm.dagserv.Add(dm.ctx, nnode)\n	if err != nil {\n		return err\n	}\n\n	dm.dropReader()","	dm.dropReader()")],"bad"),
("c03-trunc-child",["C03"],[(M,"	err = dm.dagserv.Add(ctx, modified)\n	if err != nil {\n		return nil, err\n	}\n","	if size != cur {\n		err = dm.dagserv.Add(ctx, modified)\n		if err != nil {\n			return nil, err\n		}\n	}\n")],"bad"),
("c03-trunc-stale",["C03"],[(M,"	// invalidate cache and recompute serialized data\n	_, err = nd.EncodeProtobuf(true)\n	if err != nil {\n		return nil, err\n	}\n\n	return nd, nil","	return nd, nil")],"ok"),
("c03-mod-stale",["C03"],[(M,"			_, err = node.EncodeProtobuf(true)\n","			_, err = node.EncodeProtobuf(false)\n")],"bad"),
("c03-mod-noadd",["C03"],[(M,"	err = dm.dagserv.Add(dm.ctx, node)\n	return node.Cid(), err\n","	return node.Cid(), nil\n")],"bad"),
("c03-mod-leaf",["C03"],[(M,"			err = dm.dagserv.Add(dm.ctx, nd)\n			if err != nil {\n				return cid.Cid{}, err\n			}\n\n			return nd.Cid(), nil\n		case *mdag.RawNode:","			return nd.Cid(), nil\n		case *mdag.RawNode:")],"bad"),
("c03-mod-order",["C03"],[(M,"			nd.SetCidBuilder(nd0.CidBuilder())\n			err = dm.dagserv.Add(dm.ctx, nd)\n","			err = dm.dagserv.Add(dm.ctx, nd)\n			nd.SetCidBuilder(nd0.CidBuilder())\n")],"bad"),
("c03-mod-ignore",["C03"],[(M,"	err = dm.dagserv.Add(dm.ctx, node)\n	return node.Cid(), err\n","	_ = dm.dagserv.Add(dm.ctx, node)\n	return node.Cid(), nil\n")],"bad"),
("c03-shard-noadd",["C03"],[(S,"	err = ds.dserv.Add(context.TODO(), out)\n	if err != nil {\n		return nil, err\n	}\n","")],"bad"),
("c03-shard-early",["C03"],[(S,"	out.SetData(data)\n\n	err = ds.dserv.Add(context.TODO(), out)\n	if err != nil {\n		return nil, err\n	}\n","	err = ds.dserv.Add(context.TODO(), out)\n	if err != nil {\n		return nil, err\n	}\n	out.SetData(data)\n")],"bad"),
("c03-set-noadd",["C03"],[(S,"	err := ds.dserv.Add(ctx, node)\n	if err != nil {\n		return nil, err\n	}\n\n	lnk, err := ipld","	lnk, err := ipld")],"bad"),
("c03-link-dup",["all"],[(S,"	err = ds.dserv.Add(context.TODO(), nd)\n	if err != nil {\n		return nil, err\n	}\n","")],"ok"),
("c03-ref-store",["all"],[(M,"	err = dm.dagserv.Add(dm.ctx, nnode)\n	if err != nil {\n		return err\n	}\n	dm.dropReader()\n	dm.curNode = nnode\n	return nil\n}\n\n// dropReader","	return dm.install(nnode)\n}\n\nfunc (dm *DagModifier) install(n ipld.Node) error {\n	if err := dm.dagserv.Add(dm.ctx, n); err != nil {\n		return err\n	}\n	dm.dropReader()\n	dm.curNode = n\n	return nil\n}\n\n// dropReader"),(M,"	err = dm.dagserv.Add(dm.ctx, nnode)\n	if err != nil {\n		return err\n	}\n\n	dm.dropReader()\n	dm.curNode = nnode\n	return nil\n","	return dm.install(nnode)\n")],"ok"),
("c03-ref-many",["all"],[(M,"	err = dm.dagserv.Add(dm.ctx, nnode)\n	if err != nil {\n		return err\n	}\n\n	dm.dropReader()","	err = dm.dagserv.AddMany(dm.ctx, []ipld.Node{nnode})\n	if err != nil {\n		return err\n	}\n\n	dm.dropReader()")],"ok"),
("c03-ref-cid",["all"],[(M,"	err = dm.dagserv.Add(dm.ctx, node)\n	return node.Cid(), err\n","	if err := dm.dagserv.Add(dm.ctx, node); err != nil {\n		return cid.Cid{}, err\n	}\n	return node.Cid(), nil\n")],"ok"),
("c03-ref-leaf",["all"],[(M,'''			nd := new(mdag.ProtoNode)
			nd.SetData(b)
			nd.SetCidBuilder(nd0.CidBuilder())
			err = dm.dagserv.Add(dm.ctx, nd)
			if err != nil {
				return cid.Cid{}, err
			}

			return nd.Cid(), nil
''','''			nd := new(mdag.ProtoNode)
			nd.SetData(b)
			nd.SetCidBuilder(nd0.CidBuilder())
			return dm.put(nd)
'''),(M,"// appendData appends","func (dm *DagModifier) put(nd ipld.Node) (cid.Cid, error) {\n	err := dm.dagserv.Add(dm.ctx, nd)\n	if err != nil {\n		return cid.Cid{}, err\n	}\n	return nd.Cid(), nil\n}\n\n// appendData appends")],"ok"),
("c03-ref-addfirst",["all"],[(H,"	err := n.dag.AddNodeLink(\"\", child)\n	if err != nil {\n		return err\n	}\n\n	n.file.AddBlockSize(fileSize)\n\n	return db.Add(child)\n","	if err := db.Add(child); err != nil {\n		return err\n	}\n	if err := n.dag.AddNodeLink(\"\", child); err != nil {\n		return err\n	}\n	n.file.AddBlockSize(fileSize)\n	return nil\n")],"ok"),
]
