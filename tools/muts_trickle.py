T="importer/trickle/trickledag.go"
CASES=[
("c25-depth",["C25"],[(T,"if rdepth >= depth && depth > 0 {","if rdepth > depth && depth > 0 {")],"bad"),
("c25-lay",["C25"],[(T,"rdepth := ((i - p.Direct) / p.LayerRepeat) + 1","rdepth := (i / p.LayerRepeat) + 1")],"bad"),
("c25-leaflinks",["C25"],[(T,'''		if len(n.Links()) > 0 {
			return errors.New("expected direct block")
		}
''','''		if len(n.Links()) > 1 {
			return errors.New("expected direct block")
		}
''')],"bad"),
("c25-inner-type",["C25"],[(T,"if fsn.Type() != ft.TFile {","if fsn.Type() != ft.TFile && fsn.Type() != ft.TRaw {")],"bad"),
("c25-mhlen",["C25"],[(T,"if expect.MhLength == -1 {","if expect.MhLength <= 0 {")],"bad"),
("c25-codec",["C25"],[(T,"		expect.Codec = uint64(codec)\n","		expect.Codec = prefix.Codec\n		_ = codec\n")],"bad"),
("c25-version",["C25"],[(T,"if codec == cid.Raw && expect.Version == 0 {","if expect.Version == 0 {")],"bad"),
("c25-skip",["C25"],[(T,"for i := 0; i < len(nd.Links()); i++ {","for i := 0; i < len(nd.Links())-1; i++ {")],"bad"),
("c25-skip0",["C25"],[(T,"for i := 0; i < len(nd.Links()); i++ {","for i := 1; i < len(nd.Links()); i++ {")],"bad"),
("c25-stride",["C25"],[(T,"for i := 0; i < len(nd.Links()); i++ {","for i := 0; i < len(nd.Links()); i += 2 {")],"bad"),
("c25-early",["C25"],[(T,"			err := verifyTDagRec(child, rdepth, p)\n			if err != nil {\n				return err\n			}","			return verifyTDagRec(child, rdepth, p)")],"bad"),
("c25-skiprep",["C25"],[(T,"			if rdepth >= depth && depth > 0 {","			if rdepth > 40 {\n				continue\n			}\n			if rdepth >= depth && depth > 0 {")],"bad"),
("c25-prefixonlyleaf",["C25"],[(T,"	if p.Prefix != nil {\n		prefix := n","	if p.Prefix != nil && depth <= 0 {\n		prefix := n")],"bad"),
("c25-rawkind",["C25"],[(T,"			if p.RawLeaves {\n				return errors.New(\"expected raw leaf, got","			if p.RawLeaves && p.Prefix != nil {\n				return errors.New(\"expected raw leaf, got")],"bad"),
("c25-ref-range",["C25"],[(T,"for i := 0; i < len(nd.Links()); i++ {\n		child, err := nd.Links()[i].GetNode(","for i, lnk := range nd.Links() {\n		child, err := lnk.GetNode(")],"ok"),
("c25-ref-unify",["C25"],[(T,'''			// Direct blocks
			err := verifyTDagRec(child, 0, p)
			if err != nil {
				return err
			}
		} else {''','''			if err = verifyTDagRec(child, 0, p); err != nil {
				return err
			}
			continue
		}
		{'''),],"ok"),
("c25-ref-helper",["C25"],[(T,'''	if p.Prefix != nil {
		prefix := n.Cid().Prefix()
		expect := *p.Prefix // make a copy
		expect.Codec = uint64(codec)
		if codec == cid.Raw && expect.Version == 0 {
			expect.Version = 1
		}
		if expect.MhLength == -1 {
			expect.MhLength = prefix.MhLength
		}
		if prefix != expect {
			return fmt.Errorf("unexpected cid prefix: expected: %v; got %v", expect, prefix)
		}
	}
''','''	if err := checkPrefix(n, uint64(codec), p.Prefix); err != nil {
		return err
	}
'''),(T,"// Recursive call for verifying",'''func checkPrefix(n ipld.Node, codec uint64, want *cid.Prefix) error {
	if want == nil {
		return nil
	}
	got := n.Cid().Prefix()
	if got.Codec != codec || got.MhType != want.MhType {
		return fmt.Errorf("unexpected cid prefix: expected: %v; got %v", *want, got)
	}
	v := want.Version
	if codec == cid.Raw && v == 0 {
		v = 1
	}
	if got.Version != v {
		return fmt.Errorf("unexpected cid version: %v", got)
	}
	if want.MhLength != -1 && got.MhLength != want.MhLength {
		return fmt.Errorf("unexpected hash length: %v", got)
	}
	return nil
}

// Recursive call for verifying''')],"ok"),
("c25-ref-split",["C25"],[(T,'''	if depth == 0 {
		if len(n.Links()) > 0 {
			return errors.New("expected direct block")
		}
''','''	if depth == 0 {
		return verifyLeaf(n, p)
	}
	if depth == 0 {
		if len(n.Links()) > 0 {
			return errors.New("expected direct block")
		}
'''),(T,"// Recursive call for verifying",'''func verifyLeaf(n ipld.Node, p VerifyParams) error {
	codec := uint64(cid.DagProtobuf)
	if len(n.Links()) != 0 {
		return errors.New("expected direct block")
	}
	if nd, ok := n.(*dag.ProtoNode); ok {
		if p.RawLeaves {
			return errors.New("expected raw leaf, got a protobuf node")
		}
		fsn, err := ft.FSNodeFromBytes(nd.Data())
		if err != nil {
			return err
		}
		if fsn.Type() != ft.TRaw {
			return errors.New("expected raw block")
		}
	} else if _, ok := n.(*dag.RawNode); ok {
		if !p.RawLeaves {
			return errors.New("expected protobuf node as leaf")
		}
		codec = cid.Raw
	} else {
		return errors.New("expected ProtoNode or RawNode")
	}
	if p.Prefix != nil {
		prefix := n.Cid().Prefix()
		expect := *p.Prefix
		expect.Codec = codec
		if codec == cid.Raw && expect.Version == 0 {
			expect.Version = 1
		}
		if expect.MhLength == -1 {
			expect.MhLength = prefix.MhLength
		}
		if !(prefix == expect) {
			return errors.New("unexpected cid prefix")
		}
	}
	return nil
}

// Recursive call for verifying''')],"ok"),
("c25-ref-layer",["C25"],[(T,"rdepth := ((i - p.Direct) / p.LayerRepeat) + 1\n			if rdepth >= depth && depth > 0 {","later := i - p.Direct\n			rdepth := 1 + later/p.LayerRepeat\n			if depth > 0 && !(rdepth < depth) {")],"ok"),
]
