# Reading items and messages (C07 and everything built on it): results are copies

iface ast.ItemNode.Size(self) (r)
func ast.IntNode.Size(node) (r)
  ensures r == len(node.values)
func ast.UintNode.Size(node) (r)
  ensures r == len(node.values)
func ast.FloatNode.Size(node) (r)
  ensures r == len(node.values)
func ast.BinaryNode.Size(node) (r)
  ensures r == len(node.values)
func ast.BooleanNode.Size(node) (r)
  ensures r == len(node.values)
func ast.ListNode.Size(node) (r)
  ensures r == len(node.values)
func ast.ASCIINode.Size(node) (r)
  ensures r == ite(node.isValue, len(node.value), -1)
func ast.emptyItemNode.Size(node) (r)
  ensures r == 0

invariant ast.ASCIINode(x): x.symbol == "ascii" || x.symbol == ""
iface ast.ItemNode.Type(self) (r)
  ensures r == "list" <==> is(self, "*ast.ListNode")
  ensures[C07,GEM] uint: (r == "u1" || r == "u2" || r == "u4" || r == "u8") <==> is(self, "*ast.UintNode")
  ensures[C07,GEM] int: (r == "i1" || r == "i2" || r == "i4" || r == "i8") <==> is(self, "*ast.IntNode")
  ensures[C07,GEM] text: r == "ascii" <==> is(self, "*ast.ASCIINode") && as(self, "*ast.ASCIINode").symbol == "ascii"
func ast.IntNode.Type(node) (r)
  ensures r == intSym(node.byteSize)
func ast.UintNode.Type(node) (r)
  ensures r == uintSym(node.byteSize)
func ast.FloatNode.Type(node) (r)
  ensures r == fltSym(node.byteSize)
func ast.BinaryNode.Type(node) (r)
  ensures r == "binary"
func ast.BooleanNode.Type(node) (r)
  ensures r == "boolean"
func ast.ListNode.Type(node) (r)
  ensures r == "list"
func ast.ASCIINode.Type(node) (r)
  ensures node.isValue ==> r == "ascii"
func ast.emptyItemNode.Type(node) (r)
  ensures r == "empty"

def listLen(x) = len(as(x, "*ast.ListNode").values)
def listAt(x, i) = as(x, "*ast.ListNode").values[i]
def inList(x, i) = is(x, "*ast.ListNode") && 0 <= i && i < listLen(x)
iface ast.ItemNode.Values(self) (r)
  ensures[C07,GEM] is(self, "*ast.ASCIINode") ==> is(r, "string") && as(r, "string") == as(self, "*ast.ASCIINode").value
  ensures[C07,GEM] is(self, "*ast.UintNode") ==> is(r, "[]uint64") && fresh(as(r, "[]uint64")) && len(as(r, "[]uint64")) == len(as(self, "*ast.UintNode").values) && forall(i, 0, len(as(self, "*ast.UintNode").values), as(r, "[]uint64")[i] == as(self, "*ast.UintNode").values[i])
  ensures[C07,GEM] is(self, "*ast.IntNode") ==> is(r, "[]int64") && fresh(as(r, "[]int64")) && len(as(r, "[]int64")) == len(as(self, "*ast.IntNode").values) && forall(i, 0, len(as(self, "*ast.IntNode").values), as(r, "[]int64")[i] == as(self, "*ast.IntNode").values[i])
func ast.IntNode.Values(node) (r)
  ensures[C07,GEM] copy: is(r, "[]int64") && fresh(as(r, "[]int64")) && len(as(r, "[]int64")) == len(node.values) && forall(i, 0, len(node.values), as(r, "[]int64")[i] == node.values[i])
func ast.UintNode.Values(node) (r)
  ensures[C07,GEM] copy: is(r, "[]uint64") && fresh(as(r, "[]uint64")) && len(as(r, "[]uint64")) == len(node.values) && forall(i, 0, len(node.values), as(r, "[]uint64")[i] == node.values[i])
func ast.FloatNode.Values(node) (r)
  ensures[C07,GEM] copy: is(r, "[]float64") && fresh(as(r, "[]float64")) && len(as(r, "[]float64")) == len(node.values) && forall(i, 0, len(node.values), as(r, "[]float64")[i] == node.values[i])
func ast.BinaryNode.Values(node) (r)
  ensures[C07,GEM] copy: is(r, "[]int") && fresh(as(r, "[]int")) && len(as(r, "[]int")) == len(node.values) && forall(i, 0, len(node.values), as(r, "[]int")[i] == node.values[i])
func ast.BooleanNode.Values(node) (r)
  ensures[C07,GEM] copy: is(r, "[]bool") && fresh(as(r, "[]bool")) && len(as(r, "[]bool")) == len(node.values) && forall(i, 0, len(node.values), as(r, "[]bool")[i] == node.values[i])
func ast.ListNode.Values(node) (r)
  ensures[C07,GEM] copy: is(r, "[]ast.ItemNode") && fresh(as(r, "[]ast.ItemNode")) && len(as(r, "[]ast.ItemNode")) == len(node.values) && forall(i, 0, len(node.values), as(r, "[]ast.ItemNode")[i] == node.values[i])
func ast.ASCIINode.Values(node) (r)
  ensures[C07,GEM] is(r, "string") && as(r, "string") == node.value
func ast.emptyItemNode.Values(node) (r)
  ensures[C07,GEM] is(r, "string")

iface ast.ItemNode.Get(self, indices) (r, err)
  ensures err == nil ==> r != nil
  ensures[C07,GEM] whole: len(indices) == 0 ==> err == nil && r == self
  ensures[C07,GEM] element: len(indices) == 1 ==> (err == nil) == inList(self, indices[0]) && (err == nil ==> r == listAt(self, indices[0]))
func ast.ListNode.Get(node, indices) (r, err)
  loop 0 invariant acc("ast.ItemNode") != nil
  loop 0 invariant iter == 0 ==> acc("ast.ItemNode") == box(node)
  loop 0 invariant iter == 1 ==> inList(box(node), indices[0]) && acc("ast.ItemNode") == listAt(box(node), indices[0])
iface ast.ItemNode.String(self) (r)
  panics may
func ast.ListNode.String(node) (r)
  panics may
func ast.ListNode.stringIndented(node, level) (r)
  panics may

func ast.DataMessage.Header(node) (r)
func ast.DataMessage.Get(node, indices) (r, err)
  ensures[C07,GEM] whole: len(indices) == 0 ==> err == nil && r == node.dataItem
  ensures[C07,GEM] element: len(indices) == 1 ==> (err == nil) == inList(node.dataItem, indices[0]) && (err == nil ==> r == listAt(node.dataItem, indices[0]))
func ast.DataMessage.GetAscii(node, indices) (r, err)
  panics may
func ast.DataMessage.GetByte(node, indices) (r, err)
  panics may
func ast.DataMessage.GetBoolean(node, indices) (r, err)
  panics may
func ast.DataMessage.GetFloat(node, indices) (r, err)
  panics may
func ast.DataMessage.GetInt(node, indices) (r, err)
  panics may
func ast.DataMessage.Variables(node) (r)
  ensures[C03,C04,C05,C07,C08] len(r) == nvars(node.dataItem)
  ensures[C03,C04,C05,C07,C08] forall(i, 0, len(r), r[i] == varAt(node.dataItem, i))
  ensures fresh(r)
func ast.DataMessage.String(node) (r)
  panics may

check C07 frames: ast.ItemNode.*, ast.NewIntNode, ast.NewUintNode, ast.NewFloatNode, ast.NewBinaryNode, ast.NewBooleanNode, ast.NewASCIINode, ast.NewASCIINodeVariable, ast.NewListNode, ast.NewDataMessage, ast.NewHSMSDataMessage, ast.DataMessage.*, ast.HSMSMessage.*, ast.NewHSMSControlMessage, ast.NewHSMSMessage*, ast.ControlMessage.*, ast.ListNode.stringIndented, ast.ListNode.variablesSwapKeyValue, ast.ListNode.splitValues, ast.ListNode.ellipsisAnalysis, ast.ListNode.fillEllipsis
