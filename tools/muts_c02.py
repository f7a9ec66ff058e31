H='hamt/hamt.go'; M='mod/dagmodifier.go'; D='io/directory.go'; R='io/dagreader.go'
C=['C02']
CASES=[
 ("padlen", C, [(H,"	if len(lnk.Name) < ds.maxpadlen {\n		return invalidLink, fmt.Errorf(\"invalid link name '%s'\", lnk.Name)\n	}\n","")],'bad'),
 ("nd-label", C, [(H,"			if _, err := ds.childLinkType(lnk); err != nil {\n				return nil, err\n			}\n			label","			label")],'bad'),
 ("width", C, [(H,"	if size > maximumHamtWidth {\n		return nil, fmt.Errorf(\"hamt witdh (%d) exceed maximum allowed (%d)\", size, maximumHamtWidth)\n	}\n","")],'bad'),
 ("makechilder-ones", C, [(H,"	if bf.Ones() != len(links) {\n		return fmt.Errorf(\"bitfield has %d entries but the node has %d links\", bf.Ones(), len(links))\n	}\n","")],'ok'),
 ("rm-check", C, [(H,"	if err := s.check(i); err != nil {\n		return err\n	}\n\n	copy(s.ch","	copy(s.ch")],'ok'),
 ("get-nil", C, [(H,"	c := s.child(sliceIndex)\n	if c != nil {\n		return c, nil\n	}\n\n	return s.loadChild(ctx, sliceIndex)","	return s.child(sliceIndex), nil")],'bad'),
 ("swap-has", C, [(H,"	if !ds.childer.has(idx) {\n		// Entry does not exist, create a new one.\n","	if !ds.childer.has(idx) && value != nil {\n")],'ok'),
 ("walk-nil", C, [(H,"nextShard == nil {\n			lnkLinkType, err := ds.childLinkType(lnk)","nextShard != nil {\n			lnkLinkType, err := ds.childLinkType(lnk)")],'bad'),
 ("todo-empty", C, [(H,"			if len(todoQueue) > 0 {","			if len(todoQueue) >= 0 {")],'bad'),
 ("bits", C, [("hamt/util.go","	if hb.consumed+i > len(hb.b)*8 {","	if hb.consumed > len(hb.b)*8 {")],'bad'),
 ("bits2", C, [("hamt/util.go","	if hb.consumed+i > len(hb.b)*8 {","	if hb.consumed+i > len(hb.b)*8+8 {")],'bad'),
 ("logtwo", C, [("hamt/util.go","	if v <= 0 {","	if v < 0 {")],'ok'),
 ("getvalue-assert", C, [(H,"	pbnd, ok := nd.(*dag.ProtoNode)\n	if !ok {\n		return nil, dag.ErrNotProtobuf\n	}","	pbnd := nd.(*dag.ProtoNode)")],'bad'),
 ("modify-off", C, [(M,"			if offset > uint64(len(fsn.Data())) {\n				return cid.Cid{}, ft.ErrMalformedFileFormat\n			}\n","")],'bad'),
 ("modify-raw", C, [(M,"			if offset > uint64(len(origData)) {\n				return cid.Cid{}, ft.ErrMalformedFileFormat\n			}\n","")],'bad'),
 ("modify-plus", C, [(M,"			if offsetPlusN < len(origData) {\n				copy","			{\n				copy")],'ok'),
 ("modify-links", C, [(M,"	if fsn.NumChildren() != len(node.Links()) {\n		return cid.Cid{}, ft.ErrMalformedFileFormat\n	}\n","")],'bad'),
 ("modify-assert", C, [(M,"	node, ok := n.(*mdag.ProtoNode)\n	if !ok {\n		return cid.Cid{}, ErrNotUnixfs\n	}\n","	node := n.(*mdag.ProtoNode)\n")],'bad'),
 ("trunc-size", C, [(M,"			if size > uint64(len(fsn.Data())) {\n				return nil, ft.ErrMalformedFileFormat\n			}\n","")],'bad'),
 ("trunc-raw", C, [(M,"			if size > uint64(len(nd.RawData())) {\n				return nil, ft.ErrMalformedFileFormat\n			}\n","")],'bad'),
 ("trunc-mod", C, [(M,"	if modified == nil {\n		// The children hold less data than announced by the node.\n		return nil, ft.ErrMalformedFileFormat\n	}\n","")],'bad'),
 ("meta-links", C, [(R,"			if len(n.Links()) == 0 {\n				return nil, errors.New(\"incorrectly formatted metadata object\")\n			}\n",""),(R,'	"errors"\n','	"errors"\n'),],'bad'),
 ("meta-assert", C, [(R,"			childpb, ok := child.(*mdag.ProtoNode)\n			if !ok {\n				return nil, mdag.ErrNotProtobuf\n			}\n","			childpb := child.(*mdag.ProtoNode)\n")],'bad'),
 ("seek-count", C, [(R,"				if fsNode.NumChildren() != len(node.Links()) {\n					return ErrSeekNotSupported\n				}\n","")],'bad'),
 ("seek-count2", C, [(R,"				if fsNode.NumChildren() != len(node.Links()) {","				if fsNode.NumChildren() > len(node.Links()) {")],'bad'),
 ("seek-leftneg", C, [(R,"		if offset < 0 {","		if offset < -1 {")],'ok'),
 ("dyn-rm", C, [(D,"	hamtDir, ok := d.Directory.(*HAMTDirectory)\n	if !ok {\n		return d.Directory.RemoveChild(ctx, name)\n	}\n","	hamtDir := d.Directory.(*HAMTDirectory)\n")],'bad'),
 ("newdir-assert", C, [(D,"	protoBufNode, ok := node.(*mdag.ProtoNode)\n	if !ok {\n		return nil, ErrNotADir\n	}","	protoBufNode := node.(*mdag.ProtoNode)")],'bad'),
 ("trickle-max", C, [("importer/trickle/trickledag.go","	if fsn.NumChildren() <= db.Maxlinks() {\n		return nil\n	}\n","")],'bad'),
 ("trickle-base", C, [("importer/trickle/trickledag.go","	base, ok := basen.(*dag.ProtoNode)\n	if !ok {\n		return nil, dag.ErrNotProtobuf\n	}","	base := basen.(*dag.ProtoNode)")],'bad'),
 ("verify-assert", C, [("importer/trickle/trickledag.go","	nd, ok := n.(*dag.ProtoNode)\n	if !ok {\n		return errors.New(\"expected ProtoNode\")\n	}","	nd := n.(*dag.ProtoNode)")],'bad'),
 ("child-assert", C, [("importer/helpers/dagbuilder.go","	pbn, ok := nd.(*dag.ProtoNode)\n	if !ok {\n		return nil, dag.ErrNotProtobuf\n	}","	pbn := nd.(*dag.ProtoNode)")],'bad'),
 ("size-assert", C, [("unixfs.go","	protoNode, ok := node.(*dag.ProtoNode)\n	if !ok {\n		return nil, errors.New(\"expected a ProtoNode as internal node\")\n	}","	protoNode := node.(*dag.ProtoNode)")],'bad'),
 ("readunixfs-err", C, [("unixfs.go","	fsNode, err := FSNodeFromBytes(protoNode.Data())\n	if err != nil {\n		return nil, err\n	}\n\n	return fsNode, nil","	fsNode, err := FSNodeFromBytes(protoNode.Data())\n	_ = fsNode.Type()\n	if err != nil {\n		return nil, err\n	}\n\n	return fsNode, nil")],'bad'),
 ("iter-nil", C, [("file/unixfile.go","	nd, err := l.GetNode(it.ctx, it.dserv)\n	if err != nil {\n		it.err = err\n		return false\n	}\n","	nd, err := l.GetNode(it.ctx, it.dserv)\n	if err != nil {\n		it.err = err\n	}\n")],'bad'),
 ("dm-rawassert", C, [(M,"		case *mdag.RawNode:\n			origData := nd0.RawData()","		default:\n			nd0 = n.(*mdag.RawNode)\n			origData := nd0.RawData()")],'bad'),
 ("wrbuf-nil", C, [(M,"	if dm.wrBuf == nil {\n		dm.wrBuf = new(bytes.Buffer)\n	}","")],'bad'),
 ("sync-nil", C, [(M,"	// No buffer? Nothing to do\n	if dm.wrBuf == nil {\n		return nil\n	}\n","")],'bad'),
]
