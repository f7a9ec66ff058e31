M="mod/dagmodifier.go"
def b(n,i,*e): return (n,i.split(','),[(M,)+x for x in e],"bad")
def ok(n,*e): return (n,["all"],[(M,)+x for x in e],"ok")
CASES=[
b("m-getnode-nosync","C20,C21",('''	err := dm.Sync()
	if err != nil {
		return nil, err
	}
	return dm.curNode.Copy(), nil''','''	return dm.curNode.Copy(), nil''')),
b("m-expand-keepreader","C20",('''	dm.dropReader()
	dm.curNode = nnode
	return nil
}

// dropReader''','''	dm.curNode = nnode
	return nil
}

// dropReader''')),
b("m-trunc-keepreader","C20",('''	dm.dropReader()
	dm.curNode = nnode
	return nil
}

// dagTruncate''','''	dm.curNode = nnode
	return nil
}

// dagTruncate''')),
b("m-write-keepreader","C20,C21",('''	dm.dropReader()
	if dm.wrBuf == nil {''','''	if dm.wrBuf == nil {''')),
b("m-trunc-nosync","C20,C21,C28",('''	err := dm.Sync()
	if err != nil {
		return err
	}

	realSize''','''	realSize''')),
b("m-trunc-curnode-fail","C20",('''	err = dm.dagserv.Add(dm.ctx, nnode)
	if err != nil {
		return err
	}

	dm.dropReader()
	dm.curNode = nnode
	return nil
}

// dagTruncate''','''	dm.curNode = nnode
	err = dm.dagserv.Add(dm.ctx, nnode)
	if err != nil {
		return err
	}

	dm.dropReader()
	return nil
}

// dagTruncate''')),
b("m-size-nopending","C20,C21",('''	if dm.wrBuf != nil && int64(dm.wrBuf.Len())+int64(dm.writeStart) > int64(fileSize) {''','''	if dm.wrBuf != nil && int64(dm.wrBuf.Len()) > int64(fileSize) {''')),
b("m-size-sum","C20,C21",('''		return int64(dm.wrBuf.Len()) + int64(dm.writeStart), nil''','''		return int64(dm.wrBuf.Len()) + int64(fileSize), nil''')),
b("m-sync-early-nil","C20,C21",('''		dm.wrBuf = bytes.NewBuffer(pending)
		return err''','''		dm.wrBuf = nil
		return err''')),
b("m-sync-start","C21",('''	dm.writeStart += uint64(len(pending))
''','')),
b("m-flush-noexp","C21",('''	if fs < dm.writeStart {''','''	if fs+1 < dm.writeStart {''')),
b("m-flush-at","C21",('''dm.modifyDag(dm.curNode.Copy(), dm.writeStart)''','''dm.modifyDag(dm.curNode.Copy(), dm.curWrOff)''')),
b("m-flush-appendcur","C21",('''dm.appendData(nnode, dm.splitter(dm.wrBuf))''','''dm.appendData(dm.curNode, dm.splitter(dm.wrBuf))''')),
b("m-flush-noappend","C21",('''	if dm.wrBuf.Len() > 0 {
		nnode''','''	if dm.wrBuf.Len() > 1 {
		nnode''')),
b("m-flush-nostore","C21",('''	dm.curNode = nnode
	return nil
}

// modifyDag''','''	return nil
}

// modifyDag''')),
b("m-writeat-nolen","C21",(''' && len(b) >= dm.wrBuf.Len() {''',' {')),
b("m-writeat-nocur","C21",('''		dm.wrBuf.Reset()
		dm.curWrOff = dm.writeStart
''','''		dm.wrBuf.Reset()
''')),
b("m-writeat-nosync","C21",('''	} else if uint64(offset) != dm.curWrOff {
		err := dm.Sync()
		if err != nil {
			return 0, err
		}
''','''	} else if uint64(offset) != dm.curWrOff {
''')),
ok("e-writeat-gap",('''		if offset > size {
			err := dm.expandSparse(offset - size)
			if err != nil {
				return 0, err
			}
		}
''','''		_ = size
''')),
b("m-writeat-gap2","C21",('''dm.expandSparse(offset - size)''','''dm.expandSparse(offset)''')),
b("m-writeat-nostart","C21",('''		dm.writeStart = uint64(offset)
		dm.curWrOff = uint64(offset)
	}''','''		dm.curWrOff = uint64(offset)
	}''')),
b("m-writeat-nocur2","C21",('''		dm.writeStart = uint64(offset)
		dm.curWrOff = uint64(offset)
	}''','''		dm.writeStart = uint64(offset)
	}''')),
b("m-writeat-neg","C21",('''	if offset < 0 {
		return 0, errNegativeOffset
	}

	if uint64''','''	if uint64''')),
b("m-write-nocount","C21",('''	dm.curWrOff += uint64(n)
	if dm.wrBuf.Len() >''','''	if dm.wrBuf.Len() >''')),
b("m-write-half","C21",('''dm.wrBuf.Write(b)''','''dm.wrBuf.Write(b[:len(b)/2])''')),
b("m-read-nocount","C21",('''	n, err := dm.read.Read(b)
	dm.curWrOff += uint64(n)
''','''	n, err := dm.read.Read(b)
''')),
b("m-read-nostart","C21",('''	n, err := dm.read.Read(b)
	dm.curWrOff += uint64(n)
	dm.writeStart = dm.curWrOff
''','''	n, err := dm.read.Read(b)
	dm.curWrOff += uint64(n)
''')),
b("m-prep-noseek","C21",('''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)''','''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekCurrent)
		_ = i
		i, err = int64(dm.curWrOff), nil''')),
b("m-prep-zero","C21",('''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			cancel()
			return err
		}

		if i != int64(dm.curWrOff) {
			cancel()
			return ErrSeekFail
		}
''','''''')),
b("m-prep-nosync","C20,C21",('''	err := dm.Sync()
	if err != nil {
		return err
	}

	if dm.read == nil {''','''	if dm.read == nil {''')),
b("m-readfull-ctx","C21",('''	n, err := dm.read.CtxReadFull(ctx, b)
	dm.curWrOff += uint64(n)
	dm.writeStart = dm.curWrOff''','''	n, err := dm.read.CtxReadFull(ctx, b)
	dm.curWrOff += uint64(len(b))
	dm.writeStart = dm.curWrOff''')),
b("m-seek-end","C21",('''fisize + offset''','''fisize - offset''')),
b("m-seek-cur","C21",('''int64(dm.curWrOff) + offset''','''int64(dm.writeStart) - offset''')),
b("m-seek-noreader","C21",('''	if dm.read != nil {
		_, err = dm.read.Seek(newoffset, io.SeekStart)
		if err != nil {
			// Its position is unknown.
			dm.dropReader()
			return 0, err
		}
	}

''','')),
b("m-seek-rdrkeep","C21",('''			// Its position is unknown.
			dm.dropReader()
''','')),
b("m-seek-nostart","C21",('''	dm.curWrOff = uint64(newoffset)
	dm.writeStart = uint64(newoffset)
''','''	dm.curWrOff = uint64(newoffset)
''')),
b("m-seek-neg","C21",('''	if newoffset < 0 {
		return 0, errNegativeOffset
	}
''','')),
b("m-seek-ret","C21",('''	return newoffset, nil''','''	return offset, nil''')),
b("m-mod-rel","C21",('''dm.modifyDag(child, offset-cur)''','''dm.modifyDag(child, offset)''')),
b("m-mod-noreset","C21",('''			offset = cur + bs
''','')),
ok("e-mod-ge",('''		if cur+bs > offset {''','''		if cur+bs >= offset {''')),
b("m-mod-curskip","C21",('''			offset = cur + bs
		}
		cur += bs''','''			offset = cur + bs
		} else {
			cur += bs
		}''')),
b("m-mod-break","C21",('''			if dm.wrBuf.Len() == 0 {
				// No more bytes to write!
				break
			}
			offset = cur + bs''','''			break''')),
b("m-mod-nolink","C21",('''			node.Links()[i] = &lnk
''','')),
b("m-mod-leafall","C21",('''dm.wrBuf.Read(fsn.Data()[offset:])''','''dm.wrBuf.Read(fsn.Data())''')),
b("m-mod-rawtail","C21",('''			if offsetPlusN < len(origData) {
				copy(bytes[offsetPlusN:], origData[offsetPlusN:])
			}
''','''			_ = offsetPlusN
''')),
b("m-mod-rawhead","C21",('''			copy(bytes, origData[:offset])
''','')),
b("m-trunc-neg","C28",('''	if size < 0 {
		return errNegativeOffset
	}
''','')),
b("m-trunc-same","C28",('''	if size == int64(realSize) {
		return nil
	}
''','''	if size >= int64(realSize) {
		return nil
	}
''')),
b("m-trunc-exp","C28",('''dm.expandSparse(int64(size) - realSize)''','''dm.expandSparse(int64(size))''')),
b("m-trunc-le","C28",('''		if size < cur+childsize {''','''		if size <= cur {''')),
b("m-trunc-bs","C28",('''			ndata.AddBlockSize(size - cur)
''','''			ndata.AddBlockSize(childsize)
''')),
b("m-trunc-rel","C28",('''dm.dagTruncate(ctx, child, size-cur)''','''dm.dagTruncate(ctx, child, size)''')),
b("m-trunc-noreset","C28",('''	ndata.RemoveAllBlockSizes()
''','')),
b("m-trunc-end","C28",('''			end = i
			break''','''			end = i + 1
			break''')),
b("m-trunc-nobs","C28",('''		cur += childsize
		ndata.AddBlockSize(childsize)''','''		cur += childsize''')),
b("m-trunc-leaf","C28",('''nd.SetData(ft.WrapData(fsn.Data()[:size]))''','''nd.SetData(ft.WrapData(fsn.Data()[size:]))''')),
b("m-trunc-nodata","C28",('''	nd.SetData(d)

	// inval''','''	_ = d

	// inval''')),
ok("r-size",('''	if dm.wrBuf != nil && int64(dm.wrBuf.Len())+int64(dm.writeStart) > int64(fileSize) {
		return int64(dm.wrBuf.Len()) + int64(dm.writeStart), nil
	}
	return int64(fileSize), nil''','''	size := int64(fileSize)
	if dm.wrBuf == nil {
		return size, nil
	}
	end := int64(dm.writeStart) + int64(dm.wrBuf.Len())
	if end <= size {
		return size, nil
	}
	return end, nil''')),
ok("r-writeat",('''	if uint64(offset) == dm.writeStart && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
		// We would overwrite the previous write
		dm.wrBuf.Reset()
		dm.curWrOff = dm.writeStart
	} else if uint64(offset) != dm.curWrOff {''','''	off := uint64(offset)
	overwrites := dm.wrBuf != nil && off == dm.writeStart && dm.wrBuf.Len() <= len(b)
	switch {
	case overwrites:
		// We would overwrite the previous write
		dm.curWrOff = dm.writeStart
		dm.wrBuf.Reset()
	case dm.curWrOff != off:''')),
ok("r-writeat-helper",('''		size, err := dm.Size()
		if err != nil {
			return 0, err
		}
		if offset > size {
			err := dm.expandSparse(offset - size)
			if err != nil {
				return 0, err
			}
		}
		dm.writeStart = uint64(offset)
		dm.curWrOff = uint64(offset)
	}

	return dm.Write(b)
}
''','''		if err := dm.growTo(offset); err != nil {
			return 0, err
		}
		dm.moveTo(uint64(offset))
	}

	return dm.Write(b)
}

func (dm *DagModifier) moveTo(off uint64) {
	dm.writeStart, dm.curWrOff = off, off
}

func (dm *DagModifier) growTo(offset int64) error {
	size, err := dm.Size()
	if err != nil {
		return err
	}
	if missing := offset - size; missing > 0 {
		return dm.expandSparse(missing)
	}
	return nil
}
''')),
ok("r-reader-helper",('''	n, err := dm.read.Read(b)
	dm.curWrOff += uint64(n)
	dm.writeStart = dm.curWrOff
	return n, err''','''	n, err := dm.read.Read(b)
	dm.advance(n)
	return n, err'''),('''	n, err := dm.read.CtxReadFull(ctx, b)
	dm.curWrOff += uint64(n)
	dm.writeStart = dm.curWrOff
	return n, err
}
''','''	n, err := dm.read.CtxReadFull(ctx, b)
	dm.advance(n)
	return n, err
}

func (dm *DagModifier) advance(n int) {
	dm.writeStart = dm.curWrOff + uint64(n)
	dm.curWrOff = dm.writeStart
}
''')),
ok("r-prep",('''	if dm.read == nil {
		ctx, cancel := context.WithCancel(dm.ctx)
		dr, err := uio.NewDagReader(ctx, dm.curNode, dm.dagserv)
		if err != nil {
			cancel()
			return err
		}

		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			cancel()
			return err
		}

		if i != int64(dm.curWrOff) {
			cancel()
			return ErrSeekFail
		}

		dm.readCancel = cancel
		dm.read = dr
	}

	return nil
}
''','''	if dm.read != nil {
		return nil
	}
	ctx, cancel := context.WithCancel(dm.ctx)
	dr, err := dm.openAt(ctx, int64(dm.curWrOff))
	if err != nil {
		cancel()
		return err
	}
	dm.readCancel = cancel
	dm.read = dr
	return nil
}

func (dm *DagModifier) openAt(ctx context.Context, off int64) (uio.DagReader, error) {
	dr, err := uio.NewDagReader(ctx, dm.curNode, dm.dagserv)
	if err != nil {
		return nil, err
	}
	i, err := dr.Seek(off, io.SeekStart)
	if err != nil {
		return nil, err
	}
	if i != off {
		return nil, ErrSeekFail
	}
	return dr, nil
}
''')),
ok("r-seek",('''	var newoffset int64
	switch whence {
	case io.SeekCurrent:
		newoffset = int64(dm.curWrOff) + offset
	case io.SeekStart:
		newoffset = offset
	case io.SeekEnd:
		newoffset = fisize + offset
	default:
		return 0, ErrUnrecognizedWhence
	}
''','''	newoffset := offset
	if whence == io.SeekCurrent {
		newoffset += int64(dm.curWrOff)
	} else if whence == io.SeekEnd {
		newoffset += fisize
	} else if whence != io.SeekStart {
		return 0, ErrUnrecognizedWhence
	}
'''),('''	dm.curWrOff = uint64(newoffset)
	dm.writeStart = uint64(newoffset)

	return''','''	dm.writeStart = uint64(newoffset)
	dm.curWrOff = dm.writeStart

	return''')),
ok("r-sync",('''	pending := dm.wrBuf.Bytes()

	if err := dm.flush(); err != nil {
		// Keep the bytes to be written.
		dm.wrBuf = bytes.NewBuffer(pending)
		return err
	}

	dm.writeStart += uint64(len(pending))
	dm.wrBuf = nil

	return nil''','''	pending := dm.wrBuf.Bytes()
	n := uint64(dm.wrBuf.Len())

	err := dm.flush()
	if err == nil {
		dm.wrBuf = nil
		dm.writeStart += n
		return nil
	}
	// Keep the bytes to be written.
	dm.wrBuf = bytes.NewBuffer(pending)
	return err''')),
ok("r-sync2",('''	dm.writeStart += uint64(len(pending))
	dm.wrBuf = nil
''','''	dm.wrBuf = nil
	dm.writeStart = dm.curWrOff
''')),
ok("r-flush-inline",('''	if fs < dm.writeStart {
		if err := dm.expandSparse(int64(dm.writeStart - fs)); err != nil {
			return err
		}
	}
''','''	if gap := int64(dm.writeStart) - int64(fs); gap > 0 {
		err = dm.expandSparse(gap)
		if err != nil {
			return err
		}
	}
'''),('''	if dm.wrBuf.Len() > 0 {
		nnode, err = dm.appendData(nnode, dm.splitter(dm.wrBuf))
		if err != nil {
			return err
		}

		err = dm.dagserv.Add(dm.ctx, nnode)
		if err != nil {
			return err
		}
	}

	dm.curNode = nnode
	return nil
''','''	if dm.wrBuf.Len() == 0 {
		dm.curNode = nnode
		return nil
	}
	full, err := dm.appendData(nnode, dm.splitter(dm.wrBuf))
	if err != nil {
		return err
	}
	if err = dm.dagserv.Add(dm.ctx, full); err != nil {
		return err
	}
	dm.curNode = full
	return nil
''')),
ok("r-mod-continue",('''		if cur+bs > offset {
			child, err''','''		start := cur
		cur += bs
		if cur <= offset {
			continue
		}
		{
			child, err'''),('''dm.modifyDag(child, offset-cur)''','''dm.modifyDag(child, offset-start)'''),('''			offset = cur + bs
		}
		cur += bs
''','''			offset = cur
		}
''')),
ok("r-mod-index",('''	for i, bs := range fsn.BlockSizes() {
		// We''','''	sizes := fsn.BlockSizes()
	for i := 0; i < len(sizes); i++ {
		bs := sizes[i]
		// We''')),
ok("r-mod-helper",('''			lnk := *node.Links()[i]
			lnk.Cid = k
			node.Links()[i] = &lnk
''','''			relink(node, i, k)
'''),('''// appendData appends''','''func relink(node *mdag.ProtoNode, i int, k cid.Cid) {
	old := node.Links()[i]
	node.Links()[i] = &ipld.Link{Name: old.Name, Size: old.Size, Cid: k}
}

// appendData appends''')),
ok("r-mod-raw",('''			bytes := make([]byte, len(origData))

			// copy orig data up to offset
			copy(bytes, origData[:offset])
''','''			bytes := make([]byte, len(origData))
			copy(bytes, origData)
'''),('''			offsetPlusN := int(offset) + n
			if offsetPlusN < len(origData) {
				copy(bytes[offsetPlusN:], origData[offsetPlusN:])
			}
''','''			_ = n
''')),
ok("r-mod-raw2",('''			bytes := make([]byte, len(origData))

			// copy orig data up to offset
			copy(bytes, origData[:offset])
''','''			bytes := append([]byte(nil), origData...)
'''),('''			offsetPlusN := int(offset) + n
			if offsetPlusN < len(origData) {
				copy(bytes[offsetPlusN:], origData[offsetPlusN:])
			}
''','''			_ = n
''')),
ok("r-trunc",('''	if size == int64(realSize) {
		return nil
	}

	// Truncate can also be used to expand the file
	if size > int64(realSize) {
		return dm.expandSparse(int64(size) - realSize)
	}
''','''	switch {
	case size > realSize:
		// Truncate can also be used to expand the file
		return dm.expandSparse(size - realSize)
	case size == realSize:
		return nil
	}
''')),
ok("r-trunc-loop",('''		// found the child we want to cut
		if size < cur+childsize {
			nchild''','''		keep := size - cur
		// found the child we want to cut
		if keep < childsize {
			nchild'''),('''dm.dagTruncate(ctx, child, size-cur)''','''dm.dagTruncate(ctx, child, keep)'''),('''			ndata.AddBlockSize(size - cur)
''','''			ndata.AddBlockSize(keep)
''')),
ok("r-trunc-left",('''	var cur uint64
	end := 0
	var modified''','''	left := size
	end := 0
	var modified'''),('''		if size < cur+childsize {
			nchild''','''		if left < childsize {
			nchild'''),('''dm.dagTruncate(ctx, child, size-cur)''','''dm.dagTruncate(ctx, child, left)'''),('''			ndata.AddBlockSize(size - cur)
''','''			ndata.AddBlockSize(left)
'''),('''		cur += childsize
		ndata.AddBlockSize(childsize)
''','''		left -= childsize
		ndata.AddBlockSize(childsize)
''')),
ok("r-install",('''	dm.dropReader()
	dm.curNode = nnode
	return nil
}

// dropReader''','''	dm.install(nnode)
	return nil
}

func (dm *DagModifier) install(n ipld.Node) {
	dm.curNode = n
	dm.dropReader()
}

// dropReader'''),('''	dm.dropReader()
	dm.curNode = nnode
	return nil
}

// dagTruncate''','''	dm.install(nnode)
	return nil
}

// dagTruncate''')),
ok("r-defer",('''	err := dm.readPrep()
	if err != nil {
		return 0, err
	}

	n, err := dm.read.Read(b)''','''	if err := dm.readPrep(); err != nil {
		return 0, err
	}
	rd := dm.read
	n, err := rd.Read(b)''')),
]
