H='hamt/hamt.go'; M='mod/dagmodifier.go'; D='io/directory.go'
C=['C37']
CASES=[
("emptydir",C,[("unixfs.go","func EmptyDirNode() *dag.ProtoNode {\n	return dag.NodeWithData(FolderPBData())","var emptyDir = dag.NodeWithData(FolderPBData())\n\nfunc EmptyDirNode() *dag.ProtoNode {\n	return emptyDir")],'bad'),
("emptydir-copy",C,[("unixfs.go","func EmptyDirNode() *dag.ProtoNode {\n	return dag.NodeWithData(FolderPBData())","var emptyDir = dag.NodeWithData(FolderPBData())\n\nfunc EmptyDirNode() *dag.ProtoNode {\n	return emptyDir.Copy().(*dag.ProtoNode)")],'ok'),
("padcache",C,[(H,"func makeShard(","var padOf = map[int]string{}\n\nfunc makeShard("),(H,'	maxpadding := fmt.Sprintf("%X", size-1)\n','	maxpadding, seen := padOf[size]\n	if !seen {\n		maxpadding = fmt.Sprintf("%X", size-1)\n		padOf[size] = maxpadding\n	}\n')],'bad'),
("padconst",C,[(H,"func makeShard(",'var padFormat = "%X"\n\nfunc makeShard('),(H,'	maxpadding := fmt.Sprintf("%X", size-1)\n','	maxpadding := fmt.Sprintf(padFormat, size-1)\n')],'ok'),
("scratch",C,[(H,"func (ds *Shard) linkNamePrefix(idx int) string {\n	return fmt.Sprintf(ds.prefixPadStr, idx)","var scratch []byte\n\nfunc (ds *Shard) linkNamePrefix(idx int) string {\n	scratch = append(scratch[:0], fmt.Sprintf(ds.prefixPadStr, idx)...)\n	return string(scratch)")],'bad'),
("hasher",C,[("hamt/util.go","type hashBits struct","var hasher = murmur3.New64()\n\ntype hashBits struct"),("hamt/util.go","func murmur3Hash(val []byte) []byte {\n	h := murmur3.New64()\n","func murmur3Hash(val []byte) []byte {\n	h := hasher\n	h.Reset()\n")],'bad'),
("toggle",C,[(D,"func (d *DynamicDirectory) RemoveChild(ctx context.Context, name string) error {\n","func (d *DynamicDirectory) RemoveChild(ctx context.Context, name string) error {\n	old := HAMTShardingSize\n	defer func() { HAMTShardingSize = old }()\n")],'bad'),
("sharedbits",C,[(H,"	bf, err := bitfield.NewBitfield(size)\n","	bf, err := bitsOf(size)\n"),(H,"func newChilder(","var empty = map[int]bitfield.Bitfield{}\n\nfunc bitsOf(n int) (bitfield.Bitfield, error) {\n	if b, ok := empty[n]; ok {\n		return b, nil\n	}\n	b, err := bitfield.NewBitfield(n)\n	if err == nil {\n		empty[n] = b\n	}\n	return b, err\n}\n\nfunc newChilder(")],'bad'),
("fixedbits",C,[(H,"	bf, err := bitfield.NewBitfield(size)\n","	bf, err := bitsOf(size)\n"),(H,"func newChilder(","var empty256, _ = bitfield.NewBitfield(256)\n\nfunc bitsOf(n int) (bitfield.Bitfield, error) {\n	if n == 256 {\n		return empty256, nil\n	}\n	return bitfield.NewBitfield(n)\n}\n\nfunc newChilder(")],'bad'),
("sharedbuf",C,[(M,"		dm.wrBuf = new(bytes.Buffer)\n","		dm.wrBuf = &shared\n"),(M,"var writebufferSize","var shared bytes.Buffer\n\nvar writebufferSize")],'bad'),
("builder",C,[("importer/balanced/builder.go","func fillNodeRec(","var leaves int\n\nfunc fillNodeRec("),("importer/balanced/builder.go","		if depth == 1 {\n","		if depth == 1 {\n			leaves++\n")],'bad'),
("emptydir-made",C,[("unixfs.go","func EmptyDirNode() *dag.ProtoNode {\n	return dag.NodeWithData(FolderPBData())","var emptyDir = made()\n\nfunc made() *dag.ProtoNode {\n	n := dag.NodeWithData(nil)\n	n.SetData(FolderPBData())\n	return n\n}\n\nfunc EmptyDirNode() *dag.ProtoNode {\n	return emptyDir.Copy().(*dag.ProtoNode)")],'ok'),
("emptydata",C,[("unixfs.go","func EmptyDirNode() *dag.ProtoNode {\n	return dag.NodeWithData(FolderPBData())","var emptyDir = FolderPBData()\n\nfunc EmptyDirNode() *dag.ProtoNode {\n	return dag.NodeWithData(emptyDir)")],'any'),
("table",C,[("unixfs.go","func FolderPBData() []byte {","var names = map[string]bool{\"a\": true}\n\n// Known tells.\nfunc Known(s string) bool { return names[s] }\n\nfunc FolderPBData() []byte {")],'ok'),
("pool",C,[(H,"func (ds *Shard) linkNamePrefix(idx int) string {\n	return fmt.Sprintf(ds.prefixPadStr, idx)","var pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc (ds *Shard) linkNamePrefix(idx int) string {\n	b := pool.Get().(*bytes.Buffer)\n	b.Reset()\n	fmt.Fprintf(b, ds.prefixPadStr, idx)\n	s := b.String()\n	pool.Put(b)\n	return s"),(H,'import (\n','import (\n	"bytes"\n')],'ok'),
]
