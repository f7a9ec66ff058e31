H="importer/helpers/dagbuilder.go"
B="importer/balanced/builder.go"
T="importer/trickle/trickledag.go"
VP="// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/importer/trickle.VerifyParams"
RECLOOP='''		for repeatIndex := 0; repeatIndex < depthRepeat && !db.Done(); repeatIndex++ {

			childNode, childFileSize, err := fillTrickleRec(db, db.NewFSNodeOverDag(ft.TFile), depth)
			if err != nil {
				return nil, 0, err
			}

			if err := node.AddChild(childNode, childFileSize, db); err != nil {
				return nil, 0, err
			}
		}
'''
BFILL="	for node.NumChildren() < db.Maxlinks() && !db.Done() {\n"
NEWLEAF='''	for node.NumChildren() < db.maxlinks && !db.Done() {
		child, childFileSize, err := db.NewLeafDataNode(ft.TRaw)
		if err != nil {
			return err
		}

		if err := node.AddChild(child, childFileSize, db); err != nil {
			return err
		}
	}'''
CASES=[
("c06-bal-le",["C06"],[(B,BFILL,"	for node.NumChildren() <= db.Maxlinks() && !db.Done() {\n")],"bad"),
("c06-bal-plus",["C06"],[(B,BFILL,"	for n := 0; n < db.Maxlinks() && !db.Done(); n++ {\n")],"bad"),
("c06-bal-deep",["C06"],[(B,BFILL,"	for (node.NumChildren() < db.Maxlinks() || depth > 2) && !db.Done() {\n")],"bad"),
("c06-layer-le",["C06","C35"],[(H,"	for node.NumChildren() < db.maxlinks && !db.Done() {\n","	for node.NumChildren() <= db.maxlinks && !db.Done() {\n")],"bad"),
("c06-layer-grow",["C06"],[(H,NEWLEAF,"	for max := db.maxlinks; node.NumChildren() < max && !db.Done(); {\n		child, childFileSize, err := db.NewLeafDataNode(ft.TRaw)\n		if err != nil {\n			return err\n		}\n		if childFileSize == 0 {\n			max++\n		}\n\n		if err := node.AddChild(child, childFileSize, db); err != nil {\n			return err\n		}\n	}")],"bad"),
("c06-limit-ge",["C06"],[(H,"	if len(data) > BlockSizeLimit {","	if !db.rawLeaves && len(data) > BlockSizeLimit {")],"bad"),
("c06-limit-off",["C06"],[(H,"	if len(data) > BlockSizeLimit {","	if len(data) > BlockSizeLimit+1 {")],"bad"),
("c06-limit-cap",["C06"],[(H,"	if len(data) > BlockSizeLimit {","	if len(data) > 2*BlockSizeLimit {")],"bad"),
("c06-nocopy-stat",["C06"],[(H,'	if dbp.NoCopy && db.fullPath == "" { // Enforce NoCopy','	if dbp.NoCopy && db.stat == nil && db.fullPath == "" { // Enforce NoCopy')],"bad"),
("c06-nocopy-ok",["C06"],[(H,'	if dbp.NoCopy && db.fullPath == "" { // Enforce NoCopy','	if _, ok := spl.Reader().(files.FileInfo); dbp.NoCopy && !ok { // Enforce NoCopy')],"bad"),
("c06-off-before",["C06"],[(H,"			// Update `offset` with the size of the data generated by `db.Next`.\n			db.offset += dataSize\n",""),(H,"			fn := &pi.FilestoreNode{","			db.offset += dataSize\n			fn := &pi.FilestoreNode{")],"bad"),
("c06-off-none",["C06"],[(H,"			db.offset += dataSize\n","")],"bad"),
("c06-off-rawsize",["C06"],[(H,"			db.offset += dataSize\n","			db.offset += uint64(len(node.RawData())) % uint64(BlockSizeLimit)\n")],"bad"),
("c06-off-cond",["C06"],[(H,"			db.offset += dataSize\n","			if db.offset+dataSize <= uint64(db.stat.Size()) {\n				db.offset += dataSize\n			}\n")],"bad"),
("c06-off-call",["C06"],[(H,"	node = db.ProcessFileStore(node, dataSize)\n","	node = db.ProcessFileStore(node, uint64(cap(fileData)))\n")],"bad"),
("c06-skip-fs",["C06"],[(H,"	node = db.ProcessFileStore(node, dataSize)\n","	if fsNodeType == ft.TRaw {\n		node = db.ProcessFileStore(node, dataSize)\n	}\n")],"bad"),
("c06-ref-layer",["all"],[(H,NEWLEAF,"	for room := db.maxlinks - node.NumChildren(); room > 0 && !db.Done(); room-- {\n		child, childFileSize, err := db.NewLeafDataNode(ft.TRaw)\n		if err != nil {\n			return err\n		}\n\n		if err := node.AddChild(child, childFileSize, db); err != nil {\n			return err\n		}\n	}")],"ok"),
("c06-ref-layer2",["all"],[(H,NEWLEAF,"	for {\n		if db.Done() {\n			break\n		}\n		if db.maxlinks <= node.NumChildren() {\n			break\n		}\n		child, childFileSize, err := db.NewLeafDataNode(ft.TRaw)\n		if err == nil {\n			err = node.AddChild(child, childFileSize, db)\n		}\n		if err != nil {\n			return err\n		}\n	}")],"ok"),
("c06-ref-full",["all"],[(H,"	for node.NumChildren() < db.maxlinks && !db.Done() {\n","	for !db.full(node) && !db.Done() {\n"),(H,"// NewLeafDataNode builds","func (db *DagBuilderHelper) full(n *FSNodeOverDag) bool {\n	return n.NumChildren() >= db.maxlinks\n}\n\n// NewLeafDataNode builds")],"ok"),
("c06-ref-limit",["all"],[(H,"	if len(data) > BlockSizeLimit {\n		return nil, ErrSizeLimitExceeded\n	}\n","	if err := checkLeaf(data); err != nil {\n		return nil, err\n	}\n"),(H,"// NewLeafDataNode builds","func checkLeaf(data []byte) error {\n	if n := len(data); n > BlockSizeLimit {\n		return ErrSizeLimitExceeded\n	}\n	return nil\n}\n\n// NewLeafDataNode builds")],"ok"),
("c06-ref-nocopy",["all"],[(H,'''	if fi, ok := spl.Reader().(files.FileInfo); dbp.NoCopy && ok {
		db.fullPath = fi.AbsPath()
		db.stat = fi.Stat()
	}

	if dbp.NoCopy && db.fullPath == "" { // Enforce NoCopy
		return nil, ErrMissingFsRef
	}
''','''	if dbp.NoCopy {
		if fi, ok := spl.Reader().(files.FileInfo); ok {
			db.fullPath = fi.AbsPath()
			db.stat = fi.Stat()
		}
		if db.fullPath == "" { // Enforce NoCopy
			return nil, ErrMissingFsRef
		}
	}
''')],"ok"),
("c06-ref-off",["all"],[(H,"	if db.fullPath != \"\" {\n","	if off := db.offset; db.fullPath != \"\" {\n"),(H,"					Offset:   db.offset,","					Offset:   off,"),(H,"			// Update `offset` with the size of the data generated by `db.Next`.\n			db.offset += dataSize\n",""),(H,"			fn := &pi.FilestoreNode{","			db.offset += dataSize\n			fn := &pi.FilestoreNode{")],"ok"),
("c06-ref-bal",["all"],[(B,BFILL,"	for !db.Done() {\n		if node.NumChildren() >= db.Maxlinks() {\n			break\n		}\n")],"ok"),
("c06-ref-balhelper",["all"],[(B,'''		if depth == 1 {
			// Base case: add leaf node with data.
			childNode, childFileSize, err = db.NewLeafDataNode(ft.TFile)
			if err != nil {
				return nil, 0, err
			}
		} else {
			// Recursion case: create an internal node to in turn keep
			// descending in the DAG and adding child nodes to it.
			childNode, childFileSize, err = fillNodeRec(db, nil, depth-1)
			if err != nil {
				return nil, 0, err
			}
		}
''','''		childNode, childFileSize, err = nextChild(db, depth)
		if err != nil {
			return nil, 0, err
		}
'''),(B,"// fillNodeRec will","func nextChild(db *h.DagBuilderHelper, depth int) (ipld.Node, uint64, error) {\n	if depth == 1 {\n		return db.NewLeafDataNode(ft.TFile)\n	}\n	return fillNodeRec(db, nil, depth-1)\n}\n\n// fillNodeRec will")],"ok"),
# --- C35
("c35-rep-le",["C35"],[(T,"		for repeatIndex := 0; repeatIndex < depthRepeat && !db.Done(); repeatIndex++ {","		for repeatIndex := 0; repeatIndex <= depthRepeat && !db.Done(); repeatIndex++ {")],"bad"),
("c35-rep-three",["C35"],[(T,"		for repeatIndex := 0; repeatIndex < depthRepeat && !db.Done(); repeatIndex++ {","		for repeatIndex := 1; repeatIndex < depthRepeat && !db.Done(); repeatIndex++ {")],"bad"),
("c35-deep",["C35"],[(T,"db.NewFSNodeOverDag(ft.TFile), depth)","db.NewFSNodeOverDag(ft.TFile), depth+1)")],"bad"),
("c35-depth-start",["C35"],[(T,"	for depth := 1; maxDepth == -1 || depth < maxDepth; depth++ {","	for depth := 2; maxDepth == -1 || depth < maxDepth; depth++ {")],"bad"),
("c35-depth-le",["C35"],[(T,"	for depth := 1; maxDepth == -1 || depth < maxDepth; depth++ {","	for depth := 1; maxDepth == -1 || depth <= maxDepth; depth++ {")],"bad"),
("c35-depth-step",["C35"],[(T,"	for depth := 1; maxDepth == -1 || depth < maxDepth; depth++ {","	for depth := 1; maxDepth == -1 || depth < maxDepth; depth += 1 + depth/4 {")],"bad"),
("c35-append-nopp",["C35"],[(T,"	if repeatNumber != 0 {\n		depth++\n	}\n\n	// Now, continue filling out tree like normal\n	for i := depth; i < maxDepth","	// Now, continue filling out tree like normal\n	for i := depth; i < maxDepth")],"bad"),
("c35-append-norep",["C35"],[(T,"	if repeatNumber != 0 {\n		for ; repeatNumber < depthRepeat","	if repeatNumber > 1 {\n		for ; repeatNumber < depthRepeat")],"bad"),
("c35-append-repeat0",["C35"],[(T,"		for ; repeatNumber < depthRepeat && !db.Done(); repeatNumber++ {","		for repeatNumber--; repeatNumber < depthRepeat && !db.Done(); repeatNumber++ {")],"bad"),
("c35-info-mod",["C35"],[(T,"	depth = nonLeafChildren/depthRepeat + 1","	depth = (nonLeafChildren+depthRepeat-1)/depthRepeat + 1")],"bad"),
("c35-info-le",["all"],[(T,"	if n < maxlinks {\n","	if n <= maxlinks {\n")],"ok"),
("c35-rec-layer",["C35"],[(T,"	// Always do this, even in the base case\n	if err := db.FillNodeLayer(node); err != nil {\n		return nil, 0, err\n	}\n","	if maxDepth != -1 && maxDepth > 3 {\n		if node.NumChildren() > 0 {\n			return nil, 0, nil\n		}\n	} else if err := db.FillNodeLayer(node); err != nil {\n		return nil, 0, err\n	}\n")],"bad"),
("c35-rec-lim",["C35"],[(T,"	for i := depth; i < maxDepth && !db.Done(); i++ {","	for i := depth; i <= maxDepth && !db.Done(); i++ {")],"bad"),
("c35-last-depth",["C35"],[(T,"	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)","	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth+1)")],"bad"),
("c35-top-i",["C35"],[(T,"	for i := depth; !db.Done(); i++ {","	for i := depth + 1; !db.Done(); i++ {")],"bad"),
("c35-ref-helper",["all"],[(T,RECLOOP,"		if err := fillRow(db, node, depth, 0); err != nil {\n			return nil, 0, err\n		}\n"),(T,VP,'''func fillRow(db *h.DagBuilderHelper, node *h.FSNodeOverDag, depth, from int) error {
	for i := from; i < depthRepeat && !db.Done(); i++ {
		child, size, err := fillTrickleRec(db, db.NewFSNodeOverDag(ft.TFile), depth)
		if err != nil {
			return err
		}
		if err := node.AddChild(child, size, db); err != nil {
			return err
		}
	}
	return nil
}

'''+VP)],"ok"),
("c35-ref-done",["all"],[(T,'''	for depth := 1; maxDepth == -1 || depth < maxDepth; depth++ {
		if db.Done() {
			break
			// No more data, stop here, posterior append calls will figure out
			// where we left off.
		}
''','''	for depth := 1; !db.Done() && (maxDepth == -1 || depth < maxDepth); depth++ {
''')],"ok"),
("c35-ref-early",["all"],[(T,"	if repeatNumber != 0 {\n		for ; repeatNumber < depthRepeat && !db.Done(); repeatNumber++ {","	if repeatNumber == 0 {\n		return nil\n	}\n	{\n		for i := repeatNumber; i < depthRepeat && !db.Done(); i++ {")],"ok"),
("c35-ref-down",["all"],[(T,"		for j := 0; j < depthRepeat && !db.Done(); j++ {\n			nextChild := db.NewFSNodeOverDag(ft.TFile)\n			childNode, childFileSize, err := fillTrickleRec(db, nextChild, i)\n			if err != nil {\n				return nil, 0, err\n			}\n\n","		for j := depthRepeat; j > 0 && !db.Done(); j-- {\n			nextChild := db.NewFSNodeOverDag(ft.TFile)\n			childNode, childFileSize, err := fillTrickleRec(db, nextChild, i)\n			if err != nil {\n				return nil, 0, err\n			}\n\n")],"ok"),
("c35-ref-info",["all"],[(T,"	depth = nonLeafChildren/depthRepeat + 1","	depth = (nonLeafChildren + depthRepeat) / depthRepeat"),(T,"	repeatNumber = nonLeafChildren % depthRepeat\n","	repeatNumber = nonLeafChildren - (depth-1)*depthRepeat\n")],"ok"),
]
