B='importer/balanced/builder.go'
C=['C31']
CASES=[
("leaf2",C,[(B,"		if depth == 1 {","		if depth <= 2 {")],'bad'),
("depth0",C,[(B,"fillNodeRec(db, nil, depth-1)","fillNodeRec(db, nil, 1)")],'bad'),
("half",C,[(B,"fillNodeRec(db, nil, depth-1)","fillNodeRec(db, nil, (depth+1)/2)")],'bad'),
("start2",C,[(B,"for depth := 1; !db.Done(); depth++ {","for depth := 2; !db.Done(); depth++ {")],'bad'),
("step",C,[(B,"for depth := 1; !db.Done(); depth++ {","for depth := 1; !db.Done(); depth += depth {")],'bad'),
("notfull",C,[(B,"	for node.NumChildren() < db.Maxlinks() && !db.Done() {","	for node.NumChildren() < db.Maxlinks()-1 && !db.Done() {")],'bad'),
("notfull2",C,[(B,"	for node.NumChildren() < db.Maxlinks() && !db.Done() {","	for n := node.NumChildren(); n < db.Maxlinks() && !db.Done(); n++ {\n		if depth > 3 && n == db.Maxlinks()-1 {\n			break\n		}")],'bad'),
("nodone",C,[(B,"	for node.NumChildren() < db.Maxlinks() && !db.Done() {","	for node.NumChildren() < db.Maxlinks() {")],'bad'),
("count-ok",C,[(B,"	for node.NumChildren() < db.Maxlinks() && !db.Done() {","	for n := node.NumChildren(); n < db.Maxlinks() && !db.Done(); n++ {")],'ok'),
("leaflast",C,[(B,"		if depth == 1 {","		if depth == 1 || node.NumChildren() == db.Maxlinks()-1 {")],'bad'),
("noold",C,[(B,"		root, fileSize, err = fillNodeRec(db, newRoot, depth)\n","		if depth > 1 {\n			root, fileSize, err = fillNodeRec(db, newRoot, depth-1)\n		} else {\n			root, fileSize, err = fillNodeRec(db, newRoot, depth)\n		}\n")],'bad'),
("height-param",C,[(B,"for depth := 1; !db.Done(); depth++ {","for depth := 0; !db.Done(); depth++ {"),(B,"	if depth < 1 {","	if depth < 0 {"),(B,"		if depth == 1 {","		if depth == 0 {")],'ok'),
]
