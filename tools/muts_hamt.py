H="hamt/hamt.go"
CASES=[
("c11-width",["C11"],[(H,"const maximumHamtWidth = 1 << 10","const maximumHamtWidth = 1 << 11")],"bad"),
("c11-ones",["C11"],[(H,"if bf.Ones() != len(links) {","if bf.Ones() > len(links) {")],"bad"),
("c11-type",["C11"],[(H,"if fsn.Type() != format.THAMTShard {","if fsn.Type() != format.THAMTShard && fsn.Type() != format.TDirectory {")],"bad"),
("c11-pow2",["C11"],[("hamt/util.go","if 1<<uint(lg2) != v {","if v%8 != 0 {")],"bad"),
("c11-links",["C11"],[(H,"copy(s.links, links)","copy(s.links, links[1:])")],"bad"),
("c11-builder",["C11"],[(H,"	ds.builder = pbnd.CidBuilder()\n","")],"bad"),
("c11-hash",["C11"],[(H,"ds.hashFunc = fsn.HashType()","ds.hashFunc = 0")],"bad"),
("c11-ref-loop",["C11","C12"],[(H,"		copy(s.links, links)\n","		for i, l := range links {\n			s.links[i] = l\n		}\n")],"ok"),
("c11-ref-append",["C11","C12"],[(H,"		s.links = make([]*ipld.Link, len(links))\n		copy(s.links, links)\n","		s.links = append([]*ipld.Link(nil), links...)\n")],"ok"),
("c11-ref-pow2",["C11"],[("hamt/util.go","if 1<<uint(lg2) != v {","if v&(v-1) != 0 {")],"ok"),
("c11-ref-order",["C11","C12"],[(H,'''	ds.hashFunc = fsn.HashType()
	ds.builder = pbnd.CidBuilder()

	return ds, nil''','''	ds.builder = pbnd.CidBuilder()
	ds.hashFunc = HashMurmur3

	return ds, nil''')],"ok"),
("c12-nobit",["C12"],[(H,"	s.bitfield.SetBit(idx)\n","	if len(s.children) != 17 {\n		s.bitfield.SetBit(idx)\n	}\n")],"bad"),
("c12-links-append",["C12"],[(H,"s.links = append(s.links[:i], append([]*ipld.Link{nil}, s.links[i:]...)...)","s.links = append(s.links, nil)")],"bad"),
("c12-alias",["C12"],[(H,"s.links = append(s.links[:i], append([]*ipld.Link{nil}, s.links[i:]...)...)","s.links = append(append(s.links[:i], nil), s.links[i:]...)")],"bad"),
("c12-setnolink",["C12"],[(H,"	s.children[i] = sd\n	s.links[i] = nil","	s.children[i] = sd")],"bad"),
("c12-rm-off",["C12"],[(H,"copy(s.links[i:], s.links[i+1:])","copy(s.links[i+1:], s.links[i:])")],"bad"),
("c12-rm-nounset",["C12"],[(H,"	s.bitfield.UnsetBit(childIndex)\n","")],"bad"),
("c12-rm-wrongbit",["C12"],[(H,"	s.bitfield.UnsetBit(childIndex)\n","	s.bitfield.UnsetBit(i)\n")],"bad"),
("c12-setlink-keep",["C12"],[(H,"	s.children[i] = nil\n","")],"bad"),
("c12-ins-pos",["C12"],[(H,"i := s.sliceIndex(idx)\n\n	sd, err","i := s.sliceIndex(idx + 1)\n\n	sd, err")],"bad"),
("c12-ref-rm",["C12"],[(H,"	copy(s.links[i:], s.links[i+1:])\n	s.links = s.links[:len(s.links)-1]","	s.links = append(s.links[:i], s.links[i+1:]...)")],"ok"),
("c12-ref-ins",["C12"],[(H,"s.links = append(s.links[:i], append([]*ipld.Link{nil}, s.links[i:]...)...)","s.links = append(s.links, nil)\n	copy(s.links[i+1:], s.links[i:])\n	s.links[i] = nil")],"ok"),
("c12-ref-helper",["C12"],[(H,'''	s.children = append(s.children[:i], append([]*Shard{sd}, s.children[i:]...)...)
	s.links = append(s.links[:i], append([]*ipld.Link{nil}, s.links[i:]...)...)
''','''	s.insertAt(sd, i)
'''),(H,"func (s *childer) set(sd","""func (s *childer) insertAt(sd *Shard, i int) {
	s.links = append(s.links[:i], append([]*ipld.Link{nil}, s.links[i:]...)...)
	s.children = append(s.children[:i], append([]*Shard{sd}, s.children[i:]...)...)
}

func (s *childer) set(sd""")],"ok"),
("c12-ref-inline",["C12"],[(H,"			ds.childer.set(child, i)\n" if False else "		ds.childer.set(child, i)\n		return nil, nil","		ds.childer.children[i] = child\n		ds.childer.links[i] = nil\n		return nil, nil")],"ok"),
("c12-ref-idx",["C12"],[(H,"				return oldValue, ds.childer.rm(idx)\n			}\n\n			child.val","				err = ds.childer.rm(idx)\n				return oldValue, err\n			}\n\n			child.val")],"ok"),
]
U="hamt/util.go"
CASES += [
("c13-next-lt",["C13"],[(U,"		out <<= uint(i - leftb)\n","		out <<= uint(leftb)\n")],"bad"),
("c13-next-mask",["C13"],[(U,"b := a & ^mkmask(leftb-i)","b := a & ^mkmask(i)")],"bad"),
("c13-ref-mask",["C13"],[(U,"b := a & ^mkmask(leftb-i) // mask out the low bits we don't want","b := a")],"ok"),
("c13-deep",["C13"],[(U,"if hb.consumed+i > len(hb.b)*8 {","if hb.consumed+i > len(hb.b)*8+8 {")],"bad"),
("c13-hash64",["C13"],[(U,"murmur3.New64()","murmur3.New128()")],"bad"),
("c13-nocmp",["C13"],[(H,"			if child.key == key {\n				return cb(child)","			if len(child.key) == len(key) {\n				return cb(child)")],"bad"),
("c13-consumed",["C13"],[(H,"newConsumedHashBits(grandChild.key, hv.consumed)","newConsumedHashBits(grandChild.key, hv.consumed-hv.consumed%8)")],"bad"),
("c13-consumed2",["C13"],[(H,"newConsumedHashBits(grandChild.key, hv.consumed)","newConsumedHashBits(key, hv.consumed)")],"bad"),
("c13-forkorder",["C13"],[(H,"		chhv := newConsumedHashBits(grandChild.key, hv.consumed)\n",""),(H,"		_, err = child.swapValue(ctx, chhv,","		chhv := newConsumedHashBits(grandChild.key, hv.consumed)\n		_, err = child.swapValue(ctx, chhv,")],"bad"),
("c13-label",["C13"],[(H,"label := lnk.Name[ds.maxpadlen:]","label := lnk.Name[2:]")],"bad"),
("c13-slotno",["C13"],[(H,"ds.linkNamePrefix(childIndex)+label","ds.linkNamePrefix(sliceIndex)+label")],"bad"),
("c13-pad",["C13"],[(H,'maxpadding := fmt.Sprintf("%X", size-1)','maxpadding := fmt.Sprintf("%X", size)')],"bad"),
("c13-insname",["C13"],[(H,"lnk.Name = s.sd.linkNamePrefix(idx) + key\n	i := s.sliceIndex(idx)","i := s.sliceIndex(idx)\n	lnk.Name = s.sd.linkNamePrefix(i) + key")],"bad"),
("c13-setlink-hash",["C13"],[(H,"	hv := newHashBits(name)\n\n	newLink","	hv := newHashBits(lnk.Name)\n\n	newLink")],"bad"),
("c13-lg2",["C13"],[(H,"childIndex, err := hv.Next(ds.tableSizeLg2)","childIndex, err := hv.Next(8)")],"bad"),
("c13-ref-next-loop",["C13"],[(U,'''	curbi := hb.consumed / 8
	leftb := 8 - (hb.consumed % 8)

	curb := hb.b[curbi]
	if i == leftb {
		out := int(mkmask(i) & curb)
		hb.consumed += i
		return out
	} else if i < leftb {
		a := curb & mkmask(leftb) // mask out the high bits we don't want
		b := a & ^mkmask(leftb-i) // mask out the low bits we don't want
		c := b >> uint(leftb-i)   // shift whats left down
		hb.consumed += i
		return int(c)
	} else {
		out := int(mkmask(leftb) & curb)
		out <<= uint(i - leftb)
		hb.consumed += leftb
		out += hb.next(i - leftb)
		return out
	}
''','''	out := 0
	for i > 0 {
		leftb := 8 - (hb.consumed % 8)
		cur := int(hb.b[hb.consumed/8] & mkmask(leftb))
		n := leftb
		if i < leftb {
			cur >>= uint(leftb - i)
			n = i
		}
		out = out<<uint(n) | cur
		hb.consumed += n
		i -= n
	}
	return out
''')],"ok"),
("c13-ref-get",["C13","C12","C14"],[(H,'''		if child.isValueNode() {
			if child.key == key {
				return cb(child)
			}
		} else {
			return child.getValue(ctx, hv, key, cb)
		}
''','''		if !child.isValueNode() {
			return child.getValue(ctx, hv, key, cb)
		}
		if child.key != key {
			return os.ErrNotExist
		}
		return cb(child)
''')],"ok"),
("c13-ref-node",["C13","C12"],[(H,'''		ch := ds.childer.child(sliceIndex)
		if ch != nil {
			clnk, err := ch.Link()
			if err != nil {
				return nil, err
			}

			err = out.AddRawLink(ds.linkNamePrefix(childIndex)+ch.key, clnk)
			if err != nil {
				return nil, err
			}
		} else {
			// child unloaded, just copy in link with updated name
			lnk := ds.childer.link(sliceIndex)
			if _, err := ds.childLinkType(lnk); err != nil {
				return nil, err
			}
			label := lnk.Name[ds.maxpadlen:]

			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
			if err != nil {
				return nil, err
			}
		}
		sliceIndex++
''','''		label, lnk, err := ds.slotEntry(sliceIndex)
		if err != nil {
			return nil, err
		}
		if err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk); err != nil {
			return nil, err
		}
		sliceIndex++
'''),(H,'''func (ds *Shard) makeShardValue(''','''func (ds *Shard) slotEntry(i int) (string, *ipld.Link, error) {
	if ch := ds.childer.children[i]; ch != nil {
		lnk, err := ch.Link()
		return ch.key, lnk, err
	}
	lnk := ds.childer.links[i]
	if _, err := ds.childLinkType(lnk); err != nil {
		return "", nil, err
	}
	return lnk.Name[ds.maxpadlen:], lnk, nil
}

func (ds *Shard) makeShardValue(''')],"ok"),
("c13-ref-fork",["C13","C12","C14"],[(H,'''		_, err = child.swapValue(ctx, hv, key, value)
		if err != nil {
			return nil, err
		}
		_, err = child.swapValue(ctx, chhv, grandChild.key, grandChild.val)
		if err != nil {
			return nil, err
		}
''','''		if _, err = child.swapValue(ctx, chhv, grandChild.key, grandChild.val); err != nil {
			return nil, err
		}
		if _, err = child.swapValue(ctx, hv, key, value); err != nil {
			return nil, err
		}
''')],"ok"),
("c13-ref-forkhelper",["C13","C12","C14"],[(H,'''		grandChild := child
		child, err = NewShard(ds.dserv, ds.tableSize)
		if err != nil {
			return nil, err
		}
		child.builder = ds.builder
		chhv := newConsumedHashBits(grandChild.key, hv.consumed)

		// We explicitly ignore the oldValue returned by the next two insertions
		// (which will be nil) to highlight there is no overwrite here: they are
		// done with different keys to a new (empty) shard. (At best this shard
		// will create new ones until we find different slots for both.)
		_, err = child.swapValue(ctx, hv, key, value)
		if err != nil {
			return nil, err
		}
		_, err = child.swapValue(ctx, chhv, grandChild.key, grandChild.val)
		if err != nil {
			return nil, err
		}
''','''		child, err = ds.forkLeaf(ctx, child, hv, key, value)
		if err != nil {
			return nil, err
		}
'''),(H,'''// linkNamePrefix takes''','''func (ds *Shard) forkLeaf(ctx context.Context, leaf *Shard, hv *hashBits, key string, value *ipld.Link) (*Shard, error) {
	sub, err := NewShard(ds.dserv, ds.tableSize)
	if err != nil {
		return nil, err
	}
	sub.builder = ds.builder
	old := newConsumedHashBits(leaf.key, hv.consumed)
	if _, err := sub.swapValue(ctx, hv, key, value); err != nil {
		return nil, err
	}
	if _, err := sub.swapValue(ctx, old, leaf.key, leaf.val); err != nil {
		return nil, err
	}
	return sub, nil
}

// linkNamePrefix takes''')],"ok"),
("c13-ref-prefix",["C13","C12"],[(H,"return fmt.Sprintf(ds.prefixPadStr, idx)",'return fmt.Sprintf("%0*X", ds.maxpadlen, idx)')],"ok"),
# C14
("c14-noprune",["C14"],[(H,"				return oldValue, ds.childer.rm(idx)\n			case 1:","				return oldValue, nil\n			case 1:")],"bad"),
("c14-case2",["C14"],[(H,"			case 1:\n				// The single","			case 1, 2:\n				// The single")],"bad"),
("c14-shardcollapse",["C14"],[(H,"if lnkType == shardValueLink {","if lnkType != invalidLink {")],"bad"),
("c14-loadedshard",["C14"],[(H,"					if schild.isValueNode() {\n						ds","					if schild.val != nil || schild.key == \"\" {\n						ds")],"bad"),
("c14-nocollapse",["C14"],[(H,"					if schild.isValueNode() {\n						ds.childer.set(schild, i)\n					}\n","")],"bad"),
("c14-notexist",["C14"],[(H,"		if value == nil {\n			return nil, os.ErrNotExist\n		}\n","		if value == nil {\n			return nil, nil\n		}\n")],"bad"),
("c14-oldval",["C14"],[(H,"			oldValue := child.val\n\n			if value == nil { // Remove old entry.\n				return oldValue,","			oldValue := child.val\n\n			if value == nil { // Remove old entry.\n				return value,")],"bad"),
("c14-takewrap",["C14"],[(H,"	hv := newHashBits(name)\n	return ds.swapValue(ctx, hv, name, nil)","	hv := newHashBits(name)\n	old, err := ds.swapValue(ctx, hv, name, nil)\n	if err != nil {\n		return nil, fmt.Errorf(\"take: %w\", err)\n	}\n	return old, nil")],"bad"),
("c14-collapse-anyop",["C14"],[(H,"		if value == nil {\n			// We have removed","		if value == nil && oldValue != nil && oldValue.Size > 0 {\n			// We have removed")],"bad"),
("c14-ref-if",["C14","C12","C13"],[(H,'''			switch child.childer.length() {
			case 0:
''','''			n := child.childer.length()
			if n > 1 {
				return oldValue, nil
			}
			switch n {
			case 0:
''')],"ok"),
("c14-ref-helper",["C14","C12","C13"],[(H,'''				if schild != nil {
					if schild.isValueNode() {
						ds.childer.set(schild, i)
					}
					return oldValue, nil
				}

				// Otherwise, work with the link.
				slnk := child.childer.link(0)
				var lnkType linkType
				lnkType, err = child.childer.sd.childLinkType(slnk)
				if err != nil {
					return nil, err
				}
				if lnkType == shardValueLink {
					// sub-shard with a single value element, collapse it
					ds.childer.setLink(slnk, i)
				}
				return oldValue, nil
''','''				return oldValue, ds.collapse(child, schild, i)
'''),(H,'''// linkNamePrefix takes''','''func (ds *Shard) collapse(child, only *Shard, i int) error {
	if only == nil {
		lnk := child.childer.links[0]
		t, err := child.childLinkType(lnk)
		if err != nil {
			return err
		}
		if t == shardValueLink {
			ds.childer.setLink(lnk, i)
		}
		return nil
	}
	if only.isValueNode() {
		ds.childer.set(only, i)
	}
	return nil
}

// linkNamePrefix takes''')],"ok"),
("c14-ref-early",["C14","C12","C13"],[(H,'''		if value == nil {
			// We have removed''','''		if value != nil {
			return oldValue, nil
		}
		{
			// We have removed''')],"ok"),
]
