U='unixfs.go'
R='io/dagreader.go'
CASES=[]
def ok(n,*e): CASES.append((n,["all"],list(e),'ok'))
ok("ref-u-marshalhelper",(U,'''	out, err := proto.Marshal(pbdata)
	if err != nil {
		// This shouldnt happen. seriously.
		panic(err)
	}

	return out
}
''','''	return mustMarshal(pbdata)
}

// mustMarshal panics when the message lacks required fields.
func mustMarshal(m *pb.Data) []byte {
	out, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return out
}
'''),(U,'''	data, err := proto.Marshal(pbfile)
	if err != nil {
		//this really shouldnt happen, i promise
		panic(err)
	}
	return data
''','''	return mustMarshal(pbfile)
'''))
ok("ref-u-literal",(U,'''	pbdata := new(pb.Data)
	typ := pb.Data_Raw
	pbdata.Data = b
	pbdata.Type = &typ
	pbdata.Filesize = proto.Uint64(uint64(len(b)))
''','''	typ := pb.Data_Raw
	n := uint64(len(b))
	pbdata := &pb.Data{Type: &typ, Filesize: &n, Data: b}
'''),(U,'''	pbdata := new(pb.Data)
	typ := pb.Data_HAMTShard
	pbdata.Type = &typ
	pbdata.HashType = proto.Uint64(hashType)
	pbdata.Data = data
	pbdata.Fanout = proto.Uint64(fanout)

	out, err := proto.Marshal(pbdata)
	if err != nil {
		return nil, err
	}

	return out, nil''','''	pbdata := &pb.Data{
		Type:     pb.Data_HAMTShard.Enum(),
		HashType: &hashType,
		Data:     data,
		Fanout:   &fanout,
	}
	return proto.Marshal(pbdata)'''))
ok("ref-u-newhelper",(U,'''	pbdata := new(pb.Data)
	typ := pb.Data_Symlink
	pbdata.Data = []byte(path)
	pbdata.Type = &typ
''','''	pbdata := message(pb.Data_Symlink)
	pbdata.Data = []byte(path)
'''),(U,'''// UnwrapData unm''','''func message(typ pb.Data_DataType) *pb.Data {
	d := new(pb.Data)
	d.Type = &typ
	return d
}

// UnwrapData unm'''),(U,'''	pbfile := new(pb.Data)
	typ := pb.Data_Directory
	pbfile.Type = &typ
''','''	pbfile := message(pb.Data_Directory)
'''))
ok("ref-u-sizeif",(U,'''	switch pbdata.GetType() {
	case pb.Data_Directory, pb.Data_HAMTShard:
		return 0, errors.New("can't get data size of directory")
	case pb.Data_File, pb.Data_Raw:
		return pbdata.GetFilesize(), nil
	case pb.Data_Symlink:
		return uint64(len(pbdata.GetData())), nil
	default:
		return 0, errors.New("unrecognized node data type")
	}''','''	typ := pbdata.GetType()
	if typ == pb.Data_Symlink {
		return uint64(len(pbdata.GetData())), nil
	}
	if typ == pb.Data_File || typ == pb.Data_Raw {
		return pbdata.GetFilesize(), nil
	}
	if typ == pb.Data_Directory || typ == pb.Data_HAMTShard {
		return 0, errors.New("can't get data size of directory")
	}
	return 0, errors.New("unrecognized node data type")'''))
ok("ref-u-blocksizes",(U,'''	n.UpdateFilesize(int64(s))
	n.format.Blocksizes = append(n.format.Blocksizes, s)''','''	n.format.Blocksizes = append(n.format.Blocksizes, s)
	n.UpdateFilesize(int64(s))'''),(U,'''	n.UpdateFilesize(-int64(n.format.Blocksizes[i]))
	n.format.Blocksizes = append(n.format.Blocksizes[:i], n.format.Blocksizes[i+1:]...)''','''	sizes := n.format.Blocksizes
	gone := sizes[i]
	copy(sizes[i:], sizes[i+1:])
	n.format.Blocksizes = sizes[:len(sizes)-1]
	n.UpdateFilesize(-int64(gone))'''))
ok("ref-u-setdata",(U,'''	n.UpdateFilesize(int64(len(newData) - len(n.Data())))
	n.format.Data = newData''','''	before := len(n.Data())
	n.format.Data = newData
	n.UpdateFilesize(int64(len(newData)) - int64(before))'''),(U,'''	n.format.Filesize = proto.Uint64(uint64(
		int64(n.format.GetFilesize()) + filesizeDiff))''','''	size := int64(n.format.GetFilesize()) + filesizeDiff
	usize := uint64(size)
	n.format.Filesize = &usize'''))
ok("ref-u-isdir",(U,'''	switch n.Type() {
	case pb.Data_Directory, pb.Data_HAMTShard:
		return true
	default:
		return false
	}''','''	t := n.Type()
	return t == pb.Data_Directory || t == pb.Data_HAMTShard'''))
ok("ref-u-meta",(U,'''	md := new(Metadata)
	md.MimeType = pbm.GetMimeType()
	md.Size = pbd.GetFilesize()
	return md, nil''','''	return &Metadata{MimeType: pbm.GetMimeType(), Size: pbd.GetFilesize()}, nil'''),(U,'''	pbd := new(pb.Data)
	pbd.Filesize = proto.Uint64(m.Size)
	typ := pb.Data_Metadata
	pbd.Type = &typ
	mdd, err := m.Bytes()
	if err != nil {
		return nil, err
	}

	pbd.Data = mdd
	return proto.Marshal(pbd)''','''	mdd, err := m.Bytes()
	if err != nil {
		return nil, err
	}

	typ := pb.Data_Metadata
	return proto.Marshal(&pb.Data{Type: &typ, Data: mdd, Filesize: proto.Uint64(m.Size)})'''))
ok("ref-u-readdata",(U,'''		switch fsNode.Type() {
		case pb.Data_File, pb.Data_Raw:
			return fsNode.Data(), nil
			// Only leaf nodes (of type `Data_Raw`) contain data but due to a
			// bug the `Data_File` type (normally used for internal nodes) is
			// also used for leaf nodes, so both types are accepted here
			// (see the `balanced` package for more details).
		default:
			return nil, fmt.Errorf("found %s node in unexpected place",
				fsNode.Type().String())
		}
''','''		return fileBytes(fsNode)
'''),(U,'''// Extract the `unixfs.FSNode` from''','''func fileBytes(fsNode *FSNode) ([]byte, error) {
	if t := fsNode.Type(); t != pb.Data_File && t != pb.Data_Raw {
		return nil, fmt.Errorf("found %s node in unexpected place", t.String())
	}
	return fsNode.Data(), nil
}

// Extract the `unixfs.FSNode` from'''))
ok("ref-u-extract",(U,'''	fsNode, err := FSNodeFromBytes(protoNode.Data())
	if err != nil {
		return nil, err
	}

	return fsNode, nil
}''','''	return FSNodeFromBytes(protoNode.Data())
}'''),(U,'''	n := new(FSNode)
	err := proto.Unmarshal(b, &n.format)
	if err != nil {
		return nil, err
	}

	return n, nil''','''	var n FSNode
	if err := proto.Unmarshal(b, &n.format); err != nil {
		return nil, err
	}
	return &n, nil'''))
# reader
ok("ref-r-consume",(R,'''	if dr.currentNodeData.Len() == 0 {
		dr.currentNodeData = nil
		// Signal that the buffer was consumed (for later `Read` calls).
		// This shouldn't return an EOF error as it's just the end of a
		// single node's data, not the entire DAG.
	}

	dr.offset += int64(n)
	// TODO''','''	dr.consumed(int64(n))
	// TODO'''),(R,'''// Similar to `readNodeDataBuffer` but''','''func (dr *dagReader) consumed(n int64) {
	dr.offset += n
	if dr.currentNodeData.Len() == 0 {
		dr.currentNodeData = nil
	}
}

// Similar to `readNodeDataBuffer` but'''))
ok("ref-r-readto",(R,'''		err = dr.saveNodeData(node)
		if err != nil {
			return err
		}
		// Save the leaf node file data in a buffer in case it is only
		// partially read now and future `CtxReadFull` calls reclaim the
		// rest (as each node is visited only once during `Iterate`).
		//
		// TODO''','''		if serr := dr.saveNodeData(node); serr != nil {
			return serr
		}
		// TODO'''),(R,'''		written, err := dr.writeNodeDataBuffer(w)
		n += written
		if err != nil {
			return err
		}

		return nil
	})''','''		written, werr := dr.writeNodeDataBuffer(w)
		n += written
		return werr
	})'''))
ok("ref-r-visitor",(R,'''	err = dr.dagWalker.Iterate(func(visitedNode ipld.NavigableNode) error {
		node := ipld.ExtractIPLDNode(visitedNode)

		// Skip internal nodes, they shouldn't have any file data
		// (see the `balanced` package for more details).
		if len(node.Links()) > 0 {
			return nil
		}

		err = dr.saveNodeData(node)
		if err != nil {
			return err
		}
		// Save the leaf node file data in a buffer in case it is only
		// partially read now and future `CtxReadFull` calls reclaim the
		// rest (as each node is visited only once during `Iterate`).
		//
		// TODO: We could check if the entire node's data can fit in the
		// remaining `out` buffer free space to skip this intermediary step.

		n += dr.readNodeDataBuffer(out[n:])

		if n == len(out) {
			// Output buffer full, no need to keep traversing the DAG,
			// signal the `Walker` to pause the iteration.
			dr.dagWalker.Pause()
		}

		return nil
	})
''','''	visit := func(visitedNode ipld.NavigableNode) error {
		node := ipld.ExtractIPLDNode(visitedNode)
		if isInner(node) {
			return nil
		}
		if err := dr.saveNodeData(node); err != nil {
			return err
		}
		n += dr.readNodeDataBuffer(out[n:])
		if n < len(out) {
			return nil
		}
		dr.dagWalker.Pause()
		return nil
	}
	err = dr.dagWalker.Iterate(visit)
'''),(R,"// Close the reader (canc","func isInner(node ipld.Node) bool { return len(node.Links()) != 0 }\n\n// Close the reader (canc"))
ok("ref-r-eof",(R,'''	if err == ipld.EndOfDag {
		return n, io.EOF
		// Reached the end of the (DAG) file, no more data to read.
	} else if err != nil {
		return n, err
		// Pass along any other errors from the `Visitor`.
	}
''','''	switch err {
	case nil:
	case ipld.EndOfDag:
		return n, io.EOF
	default:
		return n, err
	}
'''),(R,'''	if err == ipld.EndOfDag {
		return n, nil
	}

	return n, err
}''','''	if err == ipld.EndOfDag {
		err = nil
	}
	return
}'''))
ok("ref-r-seeksplit",(R,'''	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return dr.offset, errors.New("invalid offset")
		}
''','''	switch whence {
	case io.SeekStart:
		return dr.seekTo(offset)

	case io.SeekCurrent:
		if offset == 0 {
			return dr.offset, nil
		}
		return dr.seekTo(dr.offset + offset)

	case io.SeekEnd:
		return dr.seekTo(int64(dr.Size()) + offset)

	default:
		return 0, errors.New("invalid whence")
	}
}

func (dr *dagReader) seekTo(offset int64) (int64, error) {
		if offset < 0 {
			return dr.offset, errors.New("invalid offset")
		}
'''),(R,'''		dr.offset = offset
		return dr.offset, nil

	case io.SeekCurrent:
		if offset == 0 {
			return dr.offset, nil
		}

		return dr.Seek(dr.offset+offset, io.SeekStart)
		// TODO: Performance. This can be improved supporting relative
		// searches in the `Walker` (see `Walker.Seek`).

	case io.SeekEnd:
		return dr.Seek(int64(dr.Size())+offset, io.SeekStart)

	default:
		return 0, errors.New("invalid whence")
	}
}
''','''		dr.offset = offset
		return dr.offset, nil
}
'''))
ok("ref-r-seekleaf",(R,'''				_, err = dr.currentNodeData.Seek(left, io.SeekStart)
				if err != nil {
					return err
				}
''','''				if _, serr := dr.currentNodeData.Seek(left, io.SeekStart); serr != nil {
					return serr
				}
'''),(R,'''				for {
					childSize := fsNode.BlockSize(int(dr.dagWalker.ActiveChildIndex()))

					if childSize > uint64(left) {
						// This child's data contains the position requested
						// in `offset`, go down this child.
						return nil
					}

					// Else, skip this child.
					left -= int64(childSize)
					err := dr.dagWalker.NextChild()
					if err == ipld.ErrNextNoChild {
						// No more child nodes available, nothing to do,
						// the `Seek` will stop on its own.
						return nil
					} else if err != nil {
						return err
						// Pass along any other errors (that may in future
						// implementations be returned by `Next`) to stop
						// the search.
					}
				}
''','''				size := fsNode.BlockSize(int(dr.dagWalker.ActiveChildIndex()))
				for size <= uint64(left) {
					left -= int64(size)
					switch err := dr.dagWalker.NextChild(); err {
					case nil:
					case ipld.ErrNextNoChild:
						return nil
					default:
						return err
					}
					size = fsNode.BlockSize(int(dr.dagWalker.ActiveChildIndex()))
				}
				return nil
'''))
ok("ref-r-seekclosure",(R,'''			if len(node.Links()) > 0 {
				// Internal node, should be a `mdag.ProtoNode` containing a''','''			if len(node.Links()) == 0 {
				if err := dr.saveNodeData(node); err != nil {
					return err
				}
				_, err := dr.currentNodeData.Seek(left, io.SeekStart)
				return err
			}
			{
				// Internal node, should be a `mdag.ProtoNode` containing a'''),(R,'''
			} else {
				// Leaf node, seek inside its data.
				err := dr.saveNodeData(node)
				if err != nil {
					return err
				}

				_, err = dr.currentNodeData.Seek(left, io.SeekStart)
				if err != nil {
					return err
				}''','''			}
			/*'''),(R,'''				return nil
				// In the leaf node case the search will stop here.
			}
		})
''','''			*/
		})
'''))
ok("ref-r-new",(R,'''	ctxWithCancel, cancel := context.WithCancel(ctx)

	return &dagReader{
		ctx:       ctxWithCancel,
		cancel:    cancel,
		serv:      serv,
		size:      size,
		rootNode:  n,
		dagWalker: ipld.NewWalker(ctxWithCancel, ipld.NewNavigableIPLDNode(n, serv)),
	}, nil''','''	dr := &dagReader{serv: serv, size: size, rootNode: n}
	dr.ctx, dr.cancel = context.WithCancel(ctx)
	dr.resetPosition()
	return dr, nil'''))
ok("ref-r-newsize",(R,'''		switch fsNode.Type() {
		case unixfs.TFile, unixfs.TRaw:
			size = fsNode.FileSize()

		case unixfs.TDirectory, unixfs.THAMTShard:
			// Dont allow reading directories
			return nil, ErrIsDir

		case unixfs.TMetadata:''','''		if fsNode.IsDir() {
			return nil, ErrIsDir
		}

		switch fsNode.Type() {
		case unixfs.TFile, unixfs.TRaw:
			size = fsNode.FileSize()

		case unixfs.TMetadata:'''),(R,'''			if len(n.Links()) == 0 {
				return nil, errors.New("incorrectly formatted metadata object")
			}
			child, err := n.Links()[0].GetNode(ctx, serv)''','''			links := n.Links()
			if len(links) < 1 {
				return nil, errors.New("incorrectly formatted metadata object")
			}
			child, err := links[0].GetNode(ctx, serv)'''))
