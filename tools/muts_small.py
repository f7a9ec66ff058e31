H='hamt/hamt.go'; U='unixfs.go'; R='io/dagreader.go'; DB='importer/helpers/dagbuilder.go'; T='importer/trickle/trickledag.go'; Q='io/resolve.go'
CASES=[
# C10
("c10-negreset",['C10'],[(R,"		if offset < 0 {\n			return dr.offset, errors","		if offset < 0 {\n			dr.resetPosition()\n			return dr.offset, errors")],'bad'),
("c10-ge",['C10'],[(R,"if childSize > uint64(left) {","if childSize >= uint64(left) {")],'bad'),
("c10-noerrreset",['C10'],[(R,"			dr.resetPosition()\n			return 0, err\n","			return 0, err\n")],'bad'),
("c10-endminus",['C10'],[(R,"dr.Seek(int64(dr.Size())+offset,","dr.Seek(int64(dr.Size())-offset,")],'bad'),
("c10-curabs",['C10'],[(R,"dr.Seek(dr.offset+offset,","dr.Seek(dr.offset|offset,")],'bad'),
("c10-hints",['C10'],[(R,"if fsNode.NumChildren() != len(node.Links()) {","if fsNode.NumChildren() < len(node.Links()) {")],'any'),
("c10-hints2",['C10'],[(R,"if fsNode.NumChildren() != len(node.Links()) {","if fsNode.NumChildren() > len(node.Links()) {")],'bad'),
("c10-zero",['C10'],[(R,"		// Seek from the beginning of the DAG.\n		dr.resetPosition()\n","		if offset == 0 {\n			dr.offset = 0\n			return 0, nil\n		}\n		dr.resetPosition()\n")],'bad'),
("c10-leafoff",['C10'],[(R,"dr.currentNodeData.Seek(left, io.SeekStart)","dr.currentNodeData.Seek(offset, io.SeekStart)")],'bad'),
("c10-whence",['C10'],[(R,'	default:\n		return 0, errors.New("invalid whence")','	default:\n		dr.offset = 0\n		return 0, errors.New("invalid whence")')],'bad'),
("c10-early",['C10'],[(R,"		left := offset\n","		left := offset\n		defer func(o int64) { _ = o }(dr.offset)\n")],'ok'),
("c10-stale",['C10'],[(R,"	dr.currentNodeData = nil\n	dr.offset = 0\n","	dr.offset = 0\n")],'bad'),
("c10-nowalker",['C10'],[(R,"	dr.dagWalker = ipld.NewWalker(dr.ctx, ipld.NewNavigableIPLDNode(dr.rootNode, dr.serv))\n	// TODO: This could","	// TODO: This could")],'bad'),
("c10-clamp",['C10'],[(R,"		left := offset\n","		if offset > int64(dr.Size()) {\n			offset = int64(dr.Size())\n		}\n		left := offset\n")],'bad'),
("c10-within",['C10'],[(R,"		left := offset\n","		if fwd := offset - dr.offset; fwd > 0 && dr.currentNodeData != nil && fwd < int64(dr.currentNodeData.Len()) {\n			if _, err := dr.currentNodeData.Seek(fwd, io.SeekCurrent); err != nil {\n				return dr.offset, err\n			}\n			dr.offset = offset\n			return offset, nil\n		}\n		left := offset\n")],'ok'),
("c10-within2",['C10'],[(R,"		left := offset\n","		if fwd := offset - dr.offset; fwd > 0 && dr.currentNodeData != nil && fwd < int64(dr.currentNodeData.Len()) {\n			if _, err := dr.currentNodeData.Seek(fwd, io.SeekStart); err != nil {\n				return dr.offset, err\n			}\n			dr.offset = offset\n			return offset, nil\n		}\n		left := offset\n")],'bad'),
("c10-within3",['C10'],[(R,"		left := offset\n","		if fwd := offset - dr.offset; dr.currentNodeData != nil && fwd < int64(dr.currentNodeData.Len()) {\n			if _, err := dr.currentNodeData.Seek(fwd, io.SeekCurrent); err == nil {\n				dr.offset = offset\n				return offset, nil\n			}\n		}\n		left := offset\n")],'any'),
("c10-signed",['C10'],[(R,"if childSize > uint64(left) {","if int64(childSize) > left {")],'any'),
("c10-uint",['C10'],[(R,"left -= int64(childSize)","left -= int64(uint32(childSize))")],'bad'),
# C04
("c04-zero",['C04'],[(U,"	n.UpdateFilesize(int64(s))\n","	if s == 0 {\n		return\n	}\n	n.UpdateFilesize(int64(s))\n")],'bad'),
("c04-order",['C04'],[(U,"	n.UpdateFilesize(-int64(n.format.Blocksizes[i]))\n	n.format.Blocksizes = append(n.format.Blocksizes[:i], n.format.Blocksizes[i+1:]...)\n","	last := n.format.Blocksizes[len(n.format.Blocksizes)-1]\n	n.format.Blocksizes = append(n.format.Blocksizes[:i], n.format.Blocksizes[i+1:]...)\n	n.UpdateFilesize(-int64(last))\n")],'bad'),
("c04-clear",['C04'],[(U,"proto.Uint64(uint64(len(n.Data())))","proto.Uint64(0)")],'bad'),
("c04-grow",['C04'],[(U,"	n.UpdateFilesize(int64(len(newData) - len(n.Data())))\n","	if len(newData) > len(n.Data()) {\n		n.UpdateFilesize(int64(len(newData) - len(n.Data())))\n	}\n")],'bad'),
("c04-i32",['C04'],[(U,"	n.UpdateFilesize(int64(s))\n","	n.UpdateFilesize(int64(int32(s)))\n")],'bad'),
("c04-childlink",['C04'],[(DB,"	n.file.RemoveBlockSize(index)\n","	n.file.RemoveBlockSize(n.NumChildren() - 1)\n")],'bad'),
("c04-addsize",['C04'],[(DB,"	n.file.AddBlockSize(fileSize)\n","	if sz, err := child.Size(); err == nil && fileSize == 0 {\n		fileSize = sz\n	}\n	n.file.AddBlockSize(fileSize)\n")],'bad'),
# C05
("c05-unexpected",['C05'],[(DB,"	if db.recvdErr == io.EOF {","	if db.recvdErr == io.EOF || db.recvdErr == io.ErrUnexpectedEOF {")],'bad'),
("c05-dataerr",['C05'],[(DB,"	if db.recvdErr == io.EOF {","	if db.recvdErr == io.EOF || len(db.nextData) > 0 {")],'bad'),
("c05-emptychunk",['C05'],[(DB,"	if db.nextData != nil || db.recvdErr != nil {\n","	if len(db.nextData) > 0 || db.recvdErr != nil {\n")],'bad'),
("c05-doneerr",['C05'],[(DB,"	if db.recvdErr != nil {\n		return false\n	}\n	return db.nextData == nil","	return db.nextData == nil")],'bad'),
("c05-nexterr",['C05'],[(DB,"	if db.recvdErr != nil {\n		return nil, db.recvdErr\n	}\n	return d, nil","	if err := db.recvdErr; err != nil {\n		db.recvdErr = nil\n		return nil, err\n	}\n	return d, nil")],'any'),
("c05-keepdata",['C05'],[(DB,"	d := db.nextData\n	db.nextData = nil // signal we've consumed it\n	if db.recvdErr != nil {\n		return nil, db.recvdErr\n	}\n","	d := db.nextData\n	if db.recvdErr != nil {\n		return nil, db.recvdErr\n	}\n	if len(d) > 0 {\n		db.nextData = nil\n	}\n")],'bad'),
# C11
("c11-type",['C11'],[(H,"	if fsn.Type() != format.THAMTShard {","	if !fsn.IsDir() {")],'bad'),
("c11-hash",['C11'],[(H,"	if fsn.HashType() != HashMurmur3 {",'	if fsn.HashType() != HashMurmur3 && fsn.HashType() != 0 {')],'bad'),
("c11-ones",['C11'],[(H,"	if bf.Ones() != len(links) {","	if bf.Ones() < len(links) {")],'bad'),
("c11-hashconst",['C11'],[(H,"	ds.hashFunc = fsn.HashType()\n","	ds.hashFunc = HashMurmur3\n")],'ok'),
("c11-nobuilder",['C11'],[(H,"	ds.builder = pbnd.CidBuilder()\n\n","	if len(pbnd.Links()) > 0 {\n		ds.builder = pbnd.CidBuilder()\n	}\n\n")],'bad'),
("c11-u16",['C11'],[(H,"	size := int(fsn.Fanout())\n","	size := int(uint16(fsn.Fanout()))\n")],'bad'),
("c11-nolinks",['C11'],[(H,"	bf, err := bitfield.FromBytes(s.sd.tableSize, data)\n","	if len(links) == 0 {\n		return nil\n	}\n	bf, err := bitfield.FromBytes(s.sd.tableSize, data)\n")],'bad'),
("c11-max",['C11'],[(H,"	if size > maximumHamtWidth {","	if size > 2*maximumHamtWidth {")],'bad'),
("c11-pow",['C11'],[("hamt/util.go","	if 1<<uint(lg2) != v {","	if 1<<uint(lg2) > v {")],'bad'),
("c11-share",['C11'],[(H,"		s.links = make([]*ipld.Link, len(links))\n		copy(s.links, links)\n","		s.links = append(s.links, links...)\n")],'ok'),
("c11-drop",['C11'],[(H,"		copy(s.links, links)\n","		for i := 1; i < len(links); i++ {\n			s.links[i] = links[i]\n		}\n		s.links[0] = &ipld.Link{Name: links[0].Name, Cid: links[0].Cid}\n")],'bad'),
# C12
("c12-setlink",['C12','C14'],[(H,"	s.children[i] = nil\n	s.links[i] = lnk\n","	s.links[i] = lnk\n")],'bad'),
("c12-unset",['C12'],[(H,"	s.bitfield.UnsetBit(childIndex)\n","	s.bitfield.UnsetBit(i)\n")],'bad'),
("c12-cut",['C12'],[(H,"	s.links = s.links[:len(s.links)-1]\n","	s.links = s.links[:len(s.children)]\n")],'any'),
("c12-linkend",['C12'],[(H,"	s.links = append(s.links[:i], append([]*ipld.Link{nil}, s.links[i:]...)...)\n","	s.links = append(s.links, nil)\n")],'bad'),
("c12-loadfail",['C12'],[(H,"	lnk := s.link(sliceIndex)\n	lnkLinkType","	lnk := s.link(sliceIndex)\n	s.set(nil, sliceIndex)\n	lnkLinkType")],'bad'),
("c12-setbit",['C12'],[(H,"	s.bitfield.SetBit(idx)\n","	s.bitfield.SetBit(i)\n")],'bad'),
("c12-evict",['C12'],[(H,"	s.set(c, sliceIndex)\n\n	return c, nil\n","	if lnkLinkType == shardLink {\n		s.children[sliceIndex] = c\n	} else {\n		s.set(c, sliceIndex)\n	}\n\n	return c, nil\n")],'any'),
("c12-nocache",['C12','C14','C02'],[(H,"	s.set(c, sliceIndex)\n\n	return c, nil\n","	if lnkLinkType == shardLink {\n		s.set(c, sliceIndex)\n	}\n\n	return c, nil\n")],'bad'),
# C14
("c14-anychild",['C14'],[(H,"					if schild.isValueNode() {\n						ds.childer.set(schild, i)\n					}\n","					ds.childer.set(schild, i)\n")],'bad'),
("c14-anylink",['C14'],[(H,"				if lnkType == shardValueLink {\n					// sub-shard with a single value element, collapse it\n					ds.childer.setLink(slnk, i)\n				}\n","				_ = lnkType\n				ds.childer.setLink(slnk, i)\n")],'bad'),
("c14-loadedonly",['C14'],[(H,"				if lnkType == shardValueLink {\n","				if lnkType == shardValueLink && i == 0 {\n")],'bad'),
("c14-rmi",['C14'],[(H,"				return oldValue, ds.childer.rm(idx)\n			case 1:","				return oldValue, ds.childer.rm(i)\n			case 1:")],'bad'),
("c14-absent",['C14'],[(H,"		if value == nil {\n			return nil, os.ErrNotExist\n		}\n","		if value == nil {\n			return nil, nil\n		}\n")],'bad'),
("c14-len2",['C14'],[(H,"			switch child.childer.length() {","			switch child.childer.length() - 1 {")],'bad'),
("c14-wronglink",['C14'],[(H,"						ds.childer.set(schild, i)\n","						ds.childer.setLink(schild.val, i)\n")],'bad'),
("c14-prunefirst",['C14','C01','C13'],[(H,"		if child.key == key {\n			// We are","		if child.key == key || value == nil && len(child.key) == len(key) {\n			// We are")],'bad'),
# C24
("c24-last",['C24'],[(Q,"s.Find(ctx, names[0])","s.Find(ctx, names[len(names)-1])")],'bad'),
("c24-all",['C24'],[(Q,"return out, names[1:], nil","return out, names[:len(names)-1], nil")],'bad'),
("c24-len",['C24'],[(Q,"			if len(names) == 0 {\n				return nil, nil, errors.New(\"end of path, no more links to resolve\")\n			}\n\n","			if len(names) == 0 {\n				return nil, nil, nil\n			}\n\n")],'bad'),
("c24-fallback",['C24'],[(Q,"			out, err := s.Find(ctx, names[0])\n			if err != nil {\n","			out, err := s.Find(ctx, names[0])\n			if err != nil {\n				if l, rest, e := nd.ResolveLink(names); e == nil {\n					return l, rest, nil\n				}\n")],'bad'),
# C25
("c25-raw",['C25'],[(T,'			if fsn.Type() != ft.TRaw {','			if fsn.Type() != ft.TRaw && fsn.Type() != ft.TFile {')],'bad'),
("c25-links",['C25'],[(T,'		if len(n.Links()) > 0 {','		if len(n.Links()) > 1 {')],'bad'),
("c25-data",['C25'],[(T,'	if len(fsn.Data()) > 0 {','	if len(fsn.Data()) > 0 && len(nd.Links()) == 0 {')],'bad'),
("c25-prefix",['C25'],[(T,'	if p.Prefix != nil {\n		prefix','	if p.Prefix != nil && depth > 0 {\n		prefix')],'bad'),
("c25-prefix2",['C25'],[(T,'		if prefix != expect {','		if prefix.Codec != expect.Codec || prefix.Version != expect.Version {')],'bad'),
# C26
("c26-dir",['C26'],[(U,"	case pb.Data_Directory, pb.Data_HAMTShard:\n		return 0, errors.New","	case pb.Data_Directory:\n		return 0, nil\n	case pb.Data_HAMTShard:\n		return 0, errors.New")],'bad'),
("c26-sym",['C26'],[(U,"		return uint64(len(pbdata.GetData())), nil\n	default","		return pbdata.GetFilesize(), nil\n	default")],'bad'),
("c26-raw",['C26'],[(U,"	case pb.Data_File, pb.Data_Raw:\n		return pbdata.GetFilesize(), nil","	case pb.Data_File, pb.Data_Raw:\n		if d := pbdata.GetData(); len(d) > 0 {\n			return uint64(len(d)), nil\n		}\n		return pbdata.GetFilesize(), nil")],'bad'),
]
