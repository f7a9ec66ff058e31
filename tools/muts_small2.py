H='hamt/hamt.go'; HU='hamt/util.go'; U='unixfs.go'; R='io/dagreader.go'; DB='importer/helpers/dagbuilder.go'; T='importer/trickle/trickledag.go'; Q='io/resolve.go'
CASES=[
# C09
("c09-symfile",['C09'],[(R,"		case unixfs.TSymlink:\n			return nil, ErrCantReadSymlinks\n","		case unixfs.TSymlink:\n			size = fsNode.FileSize()\n")],'bad'),
("c09-shard",['C09'],[(R,"		case unixfs.TDirectory, unixfs.THAMTShard:\n","		case unixfs.TDirectory:\n")],'bad'),
("c09-metalast",['C09'],[(R,"n.Links()[0].GetNode(ctx, serv)","n.Links()[len(n.Links())-1].GetNode(ctx, serv)")],'bad'),
("c09-size",['C09'],[(R,"			size = fsNode.FileSize()\n","			size = fsNode.FileSize()\n			if len(n.Links()) == 0 {\n				size = uint64(len(fsNode.Data()))\n			}\n")],'bad'),
("c09-leafdir",['C09'],[(U,"		case pb.Data_File, pb.Data_Raw:\n			return fsNode.Data(), nil\n","		case pb.Data_File, pb.Data_Raw, pb.Data_Symlink:\n			return fsNode.Data(), nil\n")],'bad'),
("c09-leafempty",['C09'],[(U,"		default:\n			return nil, fmt.Errorf(\"found %s node","		case pb.Data_Directory:\n			return nil, nil\n		default:\n			return nil, fmt.Errorf(\"found %s node")],'bad'),
("c09-metaraw",['C09'],[(R,"			childpb, ok := child.(*mdag.ProtoNode)\n			if !ok {\n				return nil, mdag.ErrNotProtobuf\n			}\n			return NewDagReader(ctx, childpb, serv)\n","			return NewDagReader(ctx, child, serv)\n")],'any'),
# C08
("c08-off",['C08'],[(R,"	dr.offset += n\n	if err != nil {\n		return n, err\n	}\n","	if err != nil {\n		return n, err\n	}\n	dr.offset += n\n")],'bad'),
("c08-eof",['C08'],[(R,"	if err == ipld.EndOfDag {\n		return n, io.EOF\n","	if err == ipld.EndOfDag {\n		if n > 0 {\n			return n, nil\n		}\n		return n, io.EOF\n")],'any'),
("c08-short",['C08'],[(R,"		if n == len(out) {\n			dr.dagWalker.Pause()\n		}\n","		if n > 0 {\n			dr.dagWalker.Pause()\n		}\n")],'bad'),
("c08-nilbuf",['C08'],[(R,"	n, _ := dr.currentNodeData.Read(out)\n\n	if dr.currentNodeData.Len() == 0 {\n		// No more","	n, _ := dr.currentNodeData.Read(out)\n\n	if n < len(out) || dr.currentNodeData.Len() < n {\n		// No more")],'any'),
("c08-write",['C08'],[(R,"		written, err := dr.writeNodeDataBuffer(w)\n		n += written\n		if err != nil {\n			return err\n		}\n","		written, err := dr.writeNodeDataBuffer(w)\n		if err != nil {\n			return err\n		}\n		n += written\n")],'bad'),
("c08-left",['C08'],[(R,"		n = dr.readNodeDataBuffer(out)\n","		n = dr.readNodeDataBuffer(out)\n		if n == 0 {\n			return 0, io.EOF\n		}\n")],'any'),
# C13
("c13-consumed",['C13'],[(H,"newConsumedHashBits(grandChild.key, hv.consumed)","newConsumedHashBits(grandChild.key, hv.consumed-ds.tableSizeLg2)")],'bad'),
("c13-bits",['C13'],[(HU,"	if hb.consumed+i > len(hb.b)*8 {","	if hb.consumed+i >= len(hb.b)*8 {")],'any'),
("c13-bits2",['C13'],[(HU,"	if hb.consumed+i > len(hb.b)*8 {","	if hb.consumed >= len(hb.b)*8 {")],'bad'),
("c13-key",['C13'],[(H,"			if child.key == key {\n				return cb(child)","			if strings.EqualFold(child.key, key) {\n				return cb(child)"),(H,'import (\n','import (\n	"strings"\n')],'bad'),
("c13-keytrim",['C13','C02','C11','C15','C12'],[(H,"	s.key = lnk.Name[ds.maxpadlen:]\n","	s.key = lnk.Name[len(lnk.Name)-len(lnk.Name)+2:]\n")],'bad'),
("c13-prefix",['C13'],[(H,'fmt.Sprintf("%%0%dX", len(maxpadding))','fmt.Sprintf("%%%dX", len(maxpadding))')],'bad'),
("c13-lower",['C13'],[(H,'fmt.Sprintf("%%0%dX", len(maxpadding))','fmt.Sprintf("%%0%dx", len(maxpadding))')],'any'),
("c13-setname",['C13'],[(H,"	hv := newHashBits(name)\n\n	newLink","	hv := newHashBits(lnk.Name)\n\n	newLink")],'bad'),
("c13-slot",['C13'],[(H,"ds.linkNamePrefix(childIndex)+ch.key","ds.linkNamePrefix(sliceIndex)+ch.key")],'bad'),
# C23
("c23-fold",['C23'],[(U,"	pbdata.HashType = proto.Uint64(hashType)\n","	if hashType != 0x22 {\n		pbdata.HashType = proto.Uint64(hashType)\n	}\n")],'bad'),
("c23-mime",['C23'],[(U,"	pbm.MimeType = &m.MimeType\n","	if m.MimeType != \"\" {\n		pbm.MimeType = &m.MimeType\n	}\n")],'any'),
("c23-metasize",['C23'],[(U,"	md.Size = pbd.GetFilesize()\n","	md.Size = uint64(len(pbd.GetData()))\n")],'bad'),
("c23-metatype",['C23'],[(U,'	if pbd.GetType() != pb.Data_Metadata {\n		return nil, errors.New("incorrect node type")\n	}\n','')],'bad'),
("c23-sym",['C23'],[(U,"	pbdata.Data = []byte(path)\n","	pbdata.Data = []byte(path)\n	pbdata.Filesize = proto.Uint64(uint64(len([]rune(path))))\n")],'any'),
("c23-wrapnil",['C23'],[(U,"	pbdata.Filesize = proto.Uint64(uint64(len(b)))\n","	if len(b) > 0 {\n		pbdata.Filesize = proto.Uint64(uint64(len(b)))\n	}\n")],'bad'),
# C01
("c01-swapadd",['C01'],[(H,"	err := ds.dserv.Add(ctx, node)\n	if err != nil {\n		return nil, err\n	}\n\n	lnk, err","	err := ds.dserv.Add(ctx, node)\n	if err != nil && ctx.Err() != nil {\n		return nil, err\n	}\n\n	lnk, err")],'bad'),
("c01-emit",['C01'],[(H,"		if err != nil {\n			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})\n		}\n","		if err != nil && err != context.Canceled {\n			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})\n		}\n")],'any'),
("c01-enum",['C01'],[(H,"			return links, linkResult.Err\n","			continue\n")],'bad'),
("c01-notfound",['C01'],[(H,"		nd, err := lnk.GetNode(ctx, s.dserv)\n		if err != nil {\n			return nil, err\n		}\n","		nd, err := lnk.GetNode(ctx, s.dserv)\n		if ipld.IsNotFound(err) {\n			return nil, os.ErrNotExist\n		}\n		if err != nil {\n			return nil, err\n		}\n")],'any'),
# C03
("c03-noadd",['C03'],[(H,"	err = ds.dserv.Add(context.TODO(), out)\n	if err != nil {\n		return nil, err\n	}\n\n	return out, nil\n","	return out, nil\n")],'bad'),
("c03-late",['C03'],[(H,"	out.SetData(data)\n\n	err = ds.dserv.Add(context.TODO(), out)\n	if err != nil {\n		return nil, err\n	}\n","	err = ds.dserv.Add(context.TODO(), out)\n	if err != nil {\n		return nil, err\n	}\n	out.SetData(data)\n")],'bad'),
("c03-builder",['C03'],[(H,"	return out, nil\n}\n\nfunc (ds *Shard) makeShardValue","	out.SetCidBuilder(ds.builder)\n	return out, nil\n}\n\nfunc (ds *Shard) makeShardValue")],'any'),
# C22
("c22-bg",['C22'],[(H,"lnk.GetNode(ctx, s.dserv)","lnk.GetNode(context.Background(), s.dserv)")],'bad'),
("c22-swapbg",['C22'],[(H,"	err := ds.dserv.Add(ctx, node)\n","	err := ds.dserv.Add(context.TODO(), node)\n")],'bad'),
("c22-nocancel",['C22'],[(H,"		defer cancel()\n\n		err := parallelShardWalk","		err := parallelShardWalk"),(H,"	ctx, cancel := context.WithCancel(ctx)\n	go func","	ctx, cancel := context.WithCancel(ctx)\n	_ = cancel\n	go func")],'bad'),
("c22-metabg",['C22'],[(R,"n.Links()[0].GetNode(ctx, serv)","n.Links()[0].GetNode(context.TODO(), serv)")],'bad'),
]
