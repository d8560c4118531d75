//@ONLY C14
// ------------------------------------------------------------------ JSON
/// a JSON value; a number that is not an integer is `Other`
pub enum JVal { Null, Bool(bool), Num(int), Str(Seq<char>), Arr(Seq<JVal>), Obj(JObj), Other }
/// the entries in the order of the text, with those whose name occurs again
pub type JObj = Seq<(Seq<char>, JVal)>;

/// the names in the declarations; different names are different strings
pub uninterp spec fn jname(i: int) -> Seq<char>;
pub uninterp spec fn jnid(s: Seq<char>) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_jname(i: int) ensures jnid(#[trigger] jname(i)) == i { }

/// where the only entry with this name is; -1 when there is none, -2 when there are several
pub open spec fn jfind(o: JObj, k: Seq<char>) -> int decreases o.len() {
    if o.len() == 0 { -1 } else {
        let r = jfind(o.drop_last(), k);
        if o.last().0 == k { if r == -1 { o.len() - 1 } else { -2 } } else { r }
    }
}
pub broadcast proof fn lemma_jfind_push(o: JObj, e: (Seq<char>, JVal), q: Seq<char>)
    ensures #[trigger] jfind(o.push(e), q) == if e.0 == q { if jfind(o, q) == -1 { o.len() as int } else { -2 } } else { jfind(o, q) }
{ assert(o.push(e).drop_last() =~= o); }
pub broadcast proof fn lemma_jfind_empty(q: Seq<char>) ensures #[trigger] jfind(Seq::empty(), q) == -1 { }
pub broadcast proof fn lemma_jfind_range(o: JObj, q: Seq<char>)
    ensures -2 <= #[trigger] jfind(o, q) < o.len() decreases o.len()
{ if o.len() > 0 { lemma_jfind_range(o.drop_last(), q); } }
pub broadcast group group_json { axiom_jname, lemma_jfind_push, lemma_jfind_empty, lemma_jfind_range }
/// the entry of this name is the same
pub open spec fn jsame(o: JObj, p: JObj, k: Seq<char>) -> bool {
    jfind(o, k) == jfind(p, k) && (0 <= jfind(o, k) < o.len() ==> jfind(o, k) < p.len() && o[jfind(o, k)] == p[jfind(o, k)])
}
/// a tag: the name of a variant, or (in a buffered value) its number
pub open spec fn jis(k: JVal, name: Seq<char>, num: int) -> bool { k == JVal::Str(name) || k == JVal::Num(num) }

// strings and vectors with a given view
pub uninterp spec fn str_of(s: Seq<char>) -> String;
#[verifier::external_body]
pub proof fn axiom_str_of(s: String) ensures str_of(s@) == s { }
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub proof fn axiom_vec_of_MarkdownNode(v: Vec<MarkdownNode>) ensures vec_of(v@) == v, jfits_MarkdownNode(v@) { }
#[verifier::external_body]
pub proof fn axiom_vec_of_MarkdownMark(v: Vec<MarkdownMark>) ensures vec_of(v@) == v, jfits_MarkdownMark(v@) { }
#[verifier::external_body]
pub proof fn axiom_vec_of_view_MarkdownNode(s: Seq<MarkdownNode>) requires jfits_MarkdownNode(s) ensures vec_of(s)@ == s { }
#[verifier::external_body]
pub proof fn axiom_vec_of_view_MarkdownMark(s: Seq<MarkdownMark>) requires jfits_MarkdownMark(s) ensures vec_of(s)@ == s { }
/// fits into memory: nothing else can be read
pub open spec fn jfits_MarkdownNode(s: Seq<MarkdownNode>) -> bool { s.len() <= isize::MAX && flat(s).len() <= isize::MAX - 2 }
pub open spec fn jfits_MarkdownMark(s: Seq<MarkdownMark>) -> bool { s.len() <= isize::MAX }

// what serde reads for the basic types
pub open spec fn dec_bool(v: JVal) -> Option<bool> { match v { JVal::Bool(b) => Some(b), _ => None } }
pub open spec fn dec_u8(v: JVal) -> Option<u8> { match v { JVal::Num(i) => if 0 <= i <= u8::MAX { Some(i as u8) } else { None }, _ => None } }
pub open spec fn dec_u16(v: JVal) -> Option<u16> { match v { JVal::Num(i) => if 0 <= i <= u16::MAX { Some(i as u16) } else { None }, _ => None } }
pub open spec fn dec_u32(v: JVal) -> Option<u32> { match v { JVal::Num(i) => if 0 <= i <= u32::MAX { Some(i as u32) } else { None }, _ => None } }
pub open spec fn dec_u64(v: JVal) -> Option<u64> { match v { JVal::Num(i) => if 0 <= i <= u64::MAX { Some(i as u64) } else { None }, _ => None } }
pub open spec fn dec_usize(v: JVal) -> Option<usize> { match v { JVal::Num(i) => if 0 <= i <= usize::MAX { Some(i as usize) } else { None }, _ => None } }
pub open spec fn dec_String(v: JVal) -> Option<String> { match v { JVal::Str(s) => Some(str_of(s)), _ => None } }

// ------------------------------------------------------------------ the stand-ins for serde's readers and writers
pub struct VSerializer { }
pub struct VJson { pub v: Ghost<JVal> }
pub struct VJsonError { }
pub struct VDeserializer { pub v: Ghost<JVal> }
/// writing into memory does not fail
pub trait VSerialize {
    spec fn jenc(&self) -> JVal;
    fn serialize(&self, s: VSerializer) -> (r: Result<VJson, VJsonError>)
        ensures r is Ok, r->Ok_0.v@ == self.jenc();
}
impl VSerialize for Vec<MarkdownNode> {
    open spec fn jenc(&self) -> JVal { JVal::Arr(encs_MarkdownNode(self@)) }
    #[verifier::external_body]
    fn serialize(&self, s: VSerializer) -> (r: Result<VJson, VJsonError>) { unimplemented!() }
}
impl VSerialize for Vec<MarkdownMark> {
    open spec fn jenc(&self) -> JVal { JVal::Arr(encs_MarkdownMark(self@)) }
    #[verifier::external_body]
    fn serialize(&self, s: VSerializer) -> (r: Result<VJson, VJsonError>) { unimplemented!() }
}
impl VSerialize for String {
    open spec fn jenc(&self) -> JVal { JVal::Str(self@) }
    #[verifier::external_body]
    fn serialize(&self, s: VSerializer) -> (r: Result<VJson, VJsonError>) { unimplemented!() }
}
impl VSerialize for str {
    open spec fn jenc(&self) -> JVal { JVal::Str(self@) }
    #[verifier::external_body]
    fn serialize(&self, s: VSerializer) -> (r: Result<VJson, VJsonError>) { unimplemented!() }
}
impl VSerializer {
    #[verifier::external_body]
    pub fn serialize_str(self, x: &str) -> (r: Result<VJson, VJsonError>) ensures r is Ok, r->Ok_0.v@ == JVal::Str(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_seq<T: VSerialize>(self, x: &T) -> (r: Result<VJson, VJsonError>) ensures r is Ok, r->Ok_0.v@ == x.jenc() { unimplemented!() }
}
pub trait Deserialize: Sized {
    spec fn jdec(v: JVal) -> Option<Self>;
    fn deserialize(d: VDeserializer) -> (r: Result<Self, VJsonError>)
        ensures r is Ok <==> Self::jdec(d.v@) is Some, r is Ok ==> r->Ok_0 == Self::jdec(d.v@)->0;
}
impl Deserialize for String {
    open spec fn jdec(v: JVal) -> Option<Self> { dec_String(v) }
    #[verifier::external_body]
    fn deserialize(d: VDeserializer) -> (r: Result<Self, VJsonError>) { unimplemented!() }
}
impl Deserialize for Option<String> {
    open spec fn jdec(v: JVal) -> Option<Self> { match v { JVal::Null => Some(None), v => match dec_String(v) { Some(s) => Some(Some(s)), None => None } } }
    #[verifier::external_body]
    fn deserialize(d: VDeserializer) -> (r: Result<Self, VJsonError>) { unimplemented!() }
}

// ------------------------------------------------------------------ the types with readers and writers of their own
// What the contracts of the functions say, as relations; and, for what derived code reads, some
// value that they allow.
pub open spec fn made_fragment(v: Vec<MarkdownNode>, r: Fragment) -> bool { r.inner == v && r.size == flat(v@).len() }
pub open spec fn made_text(s: Seq<char>, r: Text) -> bool { r.content@ == s && r.len_utf16 == u16len(s) }
pub open spec fn made_set(v: Vec<MarkdownMark>, r: Option<MarkSet>) -> bool {
    &&& r is Some ==> sorted_marks(r->0.content@) && distinct_types(v@)
    &&& sorted_marks(v@) ==> r is Some && r->0.content@ == v@
}
pub open spec fn made_empty(r: Fragment) -> bool { r.size == 0 && r.inner@ == Seq::<MarkdownNode>::empty() }
pub open spec fn made_string(v: JVal, r: Option<String>) -> bool {
    &&& r is Some <==> v is Str || v is Null
    &&& v is Str ==> r->0 == str_of(v->Str_0)
    &&& v is Null ==> r->0@ == Seq::<char>::empty()
}

pub uninterp spec fn fragment_from(v: Vec<MarkdownNode>) -> Fragment;
pub uninterp spec fn text_from(s: String) -> Text;
pub uninterp spec fn set_from(v: Vec<MarkdownMark>) -> Option<MarkSet>;
pub uninterp spec fn empty_fragment() -> Fragment;
pub uninterp spec fn string_or_default(v: JVal) -> Option<String>;
/// Fragment::from, for content whose own parts are exact
#[verifier::external_body]
pub proof fn axiom_fragment_from(v: Vec<MarkdownNode>) requires exact_all(v@) ensures made_fragment(v, fragment_from(v)) { }
/// Text::from
#[verifier::external_body]
pub proof fn axiom_text_from(s: String) ensures made_text(s@, text_from(s)) { }
/// MarkSet::try_from
#[verifier::external_body]
pub proof fn axiom_set_from(v: Vec<MarkdownMark>) ensures made_set(v, set_from(v)) { }
/// Fragment::default
#[verifier::external_body]
pub proof fn axiom_empty_fragment() ensures made_empty(empty_fragment()) { }
/// deserialize_or_default
#[verifier::external_body]
pub proof fn axiom_string_or_default(v: JVal) ensures made_string(v, string_or_default(v)) { }

pub open spec fn conv_Fragment_Vec_MarkdownNode(v: Vec<MarkdownNode>) -> Option<Fragment> { Some(fragment_from(v)) }
pub open spec fn conv_Text_String(s: String) -> Option<Text> { Some(text_from(s)) }
pub open spec fn tryconv_MarkSet_Vec_MarkdownMark(v: Vec<MarkdownMark>) -> Option<MarkSet> { set_from(v) }
pub open spec fn dft_hand_Fragment() -> Fragment { empty_fragment() }
pub open spec fn decwith_deserialize_or_default_String(v: JVal) -> Option<String> { string_or_default(v) }
pub proof fn axiom_decwith_deserialize_or_default_String(v: JVal) requires v is Str
    ensures string_or_default(v) is Some, string_or_default(v)->0 == str_of(v->Str_0)
{ axiom_string_or_default(v); }

pub open spec fn enc_hand_Fragment(x: Fragment) -> JVal decreases x, 8nat { JVal::Arr(encs_MarkdownNode(x.inner@)) }
pub open spec fn enc_hand_Text(x: Text) -> JVal { JVal::Str(x.content@) }
pub open spec fn enc_hand_MarkSet(x: MarkSet) -> JVal { JVal::Arr(encs_MarkdownMark(x.content@)) }

pub open spec fn jx_Fragment(x: Fragment) -> bool decreases x, 9nat { x.size == flat(x.inner@).len() && jxs_MarkdownNode(x.inner@) }
pub open spec fn jx_Text(x: Text) -> bool { x.len_utf16 == u16len(x.content@) }
pub open spec fn jx_MarkSet(x: MarkSet) -> bool { sorted_marks(x.content@) }

pub proof fn lemma_rt_Fragment(x: Fragment) requires jx_Fragment(x) ensures dec_Fragment(enc_Fragment(x)) == Some(x) decreases x, 9nat {
    lemma_rts_MarkdownNode(x.inner@);
    axiom_vec_of_MarkdownNode(x.inner);
    lemma_jx_exact_all(x.inner@);
    axiom_fragment_from(x.inner);
}
pub proof fn lemma_rt_Text(x: Text) requires jx_Text(x) ensures dec_Text(enc_Text(x)) == Some(x) {
    axiom_str_of(x.content);
    axiom_text_from(x.content);
    axiom_str_of(text_from(x.content).content);
}
pub proof fn lemma_jxs_marks(s: Seq<MarkdownMark>) ensures jxs_MarkdownMark(s) decreases s.len() {
    if s.len() > 0 { lemma_jxs_marks(s.drop_last()); assert(jx_MarkdownMark(s.last())); }
}
pub proof fn lemma_rt_MarkSet(x: MarkSet) requires jx_MarkSet(x) ensures dec_MarkSet(enc_MarkSet(x)) == Some(x) {
    lemma_jxs_marks(x.content@);
    lemma_rts_MarkdownMark(x.content@);
    axiom_vec_of_MarkdownMark(x.content);
    axiom_set_from(x.content);
    axiom_same_marks(set_from(x.content)->0.content, x.content);
}
pub proof fn lemma_jx_Fragment(v: JVal) ensures dec_Fragment(v) matches Some(x) ==> jx_Fragment(x) decreases v, 10nat {
    lemma_jxv_MarkdownNode(v);
    if let Some(x) = decv_MarkdownNode(v) { lemma_jx_exact_all(x@); axiom_fragment_from(x); }
}
pub proof fn lemma_jx_Text(v: JVal) ensures dec_Text(v) matches Some(x) ==> jx_Text(x) decreases v, 10nat {
    if let Some(s) = dec_String(v) { axiom_text_from(s); }
}
pub proof fn lemma_jx_MarkSet(v: JVal) ensures dec_MarkSet(v) matches Some(x) ==> jx_MarkSet(x) decreases v, 10nat {
    if let Some(x) = decv_MarkdownMark(v) { axiom_set_from(x); }
}
pub proof fn lemma_dft_Fragment() ensures jx_Fragment(dft_Fragment()) { axiom_empty_fragment(); }
pub proof fn lemma_dft_MarkSet() ensures jx_MarkSet(dft_MarkSet()) { axiom_vec_of_view_MarkdownMark(Seq::empty()); }

// ------------------------------------------------------------------ the property
/// every cached size is exact and the marks are a set
pub open spec fn exact_node(n: MarkdownNode) -> bool decreases n, 0nat {
    match n {
        MarkdownNode::Doc(b) => b.content.size == flat(b.content.inner@).len() && exact_all(b.content.inner@),
        MarkdownNode::Heading(a) => a.content.size == flat(a.content.inner@).len() && exact_all(a.content.inner@),
        MarkdownNode::CodeBlock(a) => a.content.size == flat(a.content.inner@).len() && exact_all(a.content.inner@),
        MarkdownNode::Text(t) => t.text.len_utf16 == u16len(t.text.content@) && sorted_marks(t.marks.content@),
        MarkdownNode::Blockquote(b) => b.content.size == flat(b.content.inner@).len() && exact_all(b.content.inner@),
        MarkdownNode::Paragraph(b) => b.content.size == flat(b.content.inner@).len() && exact_all(b.content.inner@),
        MarkdownNode::BulletList(a) => a.content.size == flat(a.content.inner@).len() && exact_all(a.content.inner@),
        MarkdownNode::OrderedList(a) => a.content.size == flat(a.content.inner@).len() && exact_all(a.content.inner@),
        MarkdownNode::ListItem(b) => b.content.size == flat(b.content.inner@).len() && exact_all(b.content.inner@),
        _ => true,
    }
}
pub open spec fn exact_all(s: Seq<MarkdownNode>) -> bool decreases s, s.len() {
    s.len() == 0 || (exact_all(s.drop_last()) && exact_node(s.last()))
}
pub open spec fn exact_frag(f: Fragment) -> bool { f.size == flat(f.inner@).len() && exact_all(f.inner@) }

/// the two ways to say so
pub proof fn lemma_jx_exact(n: MarkdownNode) ensures jx_MarkdownNode(n) <==> exact_node(n) decreases n, 0nat {
    match n {
        MarkdownNode::Doc(b) => { lemma_jx_exact_all(b.content.inner@); }
        MarkdownNode::Heading(a) => { lemma_jx_exact_all(a.content.inner@); }
        MarkdownNode::CodeBlock(a) => { lemma_jx_exact_all(a.content.inner@); }
        MarkdownNode::Blockquote(b) => { lemma_jx_exact_all(b.content.inner@); }
        MarkdownNode::Paragraph(b) => { lemma_jx_exact_all(b.content.inner@); }
        MarkdownNode::BulletList(a) => { lemma_jx_exact_all(a.content.inner@); }
        MarkdownNode::OrderedList(a) => { lemma_jx_exact_all(a.content.inner@); }
        MarkdownNode::ListItem(b) => { lemma_jx_exact_all(b.content.inner@); }
        _ => {}
    }
}
pub proof fn lemma_jx_exact_all(s: Seq<MarkdownNode>) ensures jxs_MarkdownNode(s) <==> exact_all(s) decreases s, s.len() {
    if s.len() > 0 { lemma_jx_exact_all(s.drop_last()); lemma_jx_exact(s.last()); }
}
pub proof fn lemma_exact_at(s: Seq<MarkdownNode>, i: int) requires exact_all(s), 0 <= i < s.len() ensures exact_node(s[i]) decreases s.len() {
    if i < s.len() - 1 { lemma_exact_at(s.drop_last(), i); }
}
pub proof fn lemma_units16(s: Seq<char>, m: Seq<MarkdownMark>) ensures units(s, m).len() == u16len(s) decreases s.len() {
    if s.len() > 0 { lemma_units16(s.drop_last(), m); }
}
/// what node_size looks at
pub open spec fn own_size(n: MarkdownNode) -> bool {
    match n { MarkdownNode::Text(t) => t.text.len_utf16 == u16len(t.text.content@), n => cont(n) is Some ==> cont(n)->0.size == flat(kids(n)).len() }
}
pub proof fn lemma_exact_own(n: MarkdownNode) requires exact_node(n) ensures own_size(n) { }

/// Every exact document comes back as it was, and every document that is read is exact.
pub proof fn client_json_node(n: MarkdownNode, v: JVal)
    ensures exact_node(n) ==> dec_MarkdownNode(enc_MarkdownNode(n)) == Some(n),
        dec_MarkdownNode(v) matches Some(x) ==> exact_node(x),
{
    lemma_jx_exact(n);
    if exact_node(n) { lemma_rt_MarkdownNode(n); }
    lemma_jx_MarkdownNode(v);
    if let Some(x) = dec_MarkdownNode(v) { lemma_jx_exact(x); }
}
/// The same for slices.
pub proof fn client_json_slice(s: Slice, v: JVal)
    ensures exact_frag(s.content) ==> dec_Slice(enc_Slice(s)) == Some(s),
        dec_Slice(v) matches Some(x) ==> exact_frag(x.content),
{
    lemma_jx_exact_all(s.content.inner@);
    if exact_frag(s.content) { lemma_rt_Slice(s); }
    lemma_jx_Slice(v);
    if let Some(x) = dec_Slice(v) { lemma_jx_exact_all(x.content.inner@); }
}
pub open spec fn exact_step(s: Step) -> bool {
    match s { Step::Replace(r) => exact_frag(r.slice.content), Step::ReplaceAround(r) => exact_frag(r.slice.content), _ => true }
}
/// The same for steps.
pub proof fn client_json_step(s: Step, v: JVal)
    ensures exact_step(s) ==> dec_Step(enc_Step(s)) == Some(s),
        dec_Step(v) matches Some(x) ==> exact_step(x),
{
    lemma_jx_step(s);
    if exact_step(s) { lemma_rt_Step(s); }
    lemma_jx_Step(v);
    if let Some(x) = dec_Step(v) { lemma_jx_step(x); }
}
pub proof fn lemma_jx_step(s: Step) ensures jx_Step(s) <==> exact_step(s) {
    match s {
        Step::Replace(r) => { lemma_jx_exact_all(r.slice.content.inner@); }
        Step::ReplaceAround(r) => { lemma_jx_exact_all(r.slice.content.inner@); }
        _ => {}
    }
}
/// an entry of this name, once, that is a string / a natural number / a truth value / there at all
pub open spec fn has_it(o: JObj, k: Seq<char>) -> bool { 0 <= jfind(o, k) < o.len() }
pub open spec fn has_str(o: JObj, k: Seq<char>) -> bool { has_it(o, k) && o[jfind(o, k)].1 is Str }
pub open spec fn has_nat(o: JObj, k: Seq<char>) -> bool { has_it(o, k) && o[jfind(o, k)].1 is Num && o[jfind(o, k)].1->Num_0 >= 0 }
pub open spec fn has_bool(o: JObj, k: Seq<char>) -> bool { has_it(o, k) && o[jfind(o, k)].1 is Bool }
/// a string, null, or not there
pub open spec fn may_str(o: JObj, k: Seq<char>) -> bool { jfind(o, k) == -1 || (has_it(o, k) && (o[jfind(o, k)].1 is Str || o[jfind(o, k)].1 is Null)) }
/// What is not a node, slice or step is an error: the type is unknown, or a part that has no default
/// is missing or of another kind, or two marks of a text have the same type.
pub proof fn client_json_needed(v: JVal, o: JObj, s: Seq<JVal>)
    ensures
        dec_MarkdownNode(v) is Some ==> v is Obj || v is Arr,
        dec_MarkdownMark(v) is Some ==> v is Obj || v is Arr,
        dec_Step(v) is Some ==> v is Obj || v is Arr,
        dec_Slice(v) is Some ==> v is Obj || v is Arr,
        dec_MarkSet(v) is Some ==> v is Arr && decs_MarkdownMark(v->Arr_0) is Some && distinct_types(decs_MarkdownMark(v->Arr_0)->0),
        dec_Fragment(v) is Some ==> v is Arr && decs_MarkdownNode(v->Arr_0) is Some,
        dec_MarkdownNode(JVal::Obj(o)) is Some ==> has_it(o, jtag_MarkdownNode()) && jknown_MarkdownNode(o[jfind(o, jtag_MarkdownNode())].1),
        dec_MarkdownMark(JVal::Obj(o)) is Some ==> has_it(o, jtag_MarkdownMark()) && jknown_MarkdownMark(o[jfind(o, jtag_MarkdownMark())].1),
        dec_Step(JVal::Obj(o)) is Some ==> has_it(o, jtag_Step()) && jknown_Step(o[jfind(o, jtag_Step())].1),
        decf_TextNode(o) is Some ==> has_str(o, jk_TextNode_text()),
        decf_AttrNode_HeadingAttrs(o) is Some ==> has_it(o, jk_AttrNode_HeadingAttrs_attrs()),
        decf_AttrNode_CodeBlockAttrs(o) is Some ==> has_it(o, jk_AttrNode_CodeBlockAttrs_attrs()),
        decf_AttrNode_BulletListAttrs(o) is Some ==> has_it(o, jk_AttrNode_BulletListAttrs_attrs()),
        decf_AttrNode_OrderedListAttrs(o) is Some ==> has_it(o, jk_AttrNode_OrderedListAttrs_attrs()),
        decf_Leaf_ImageAttrs(o) is Some ==> has_it(o, jk_Leaf_ImageAttrs_attrs()),
        decf_HeadingAttrs(o) is Some ==> has_nat(o, jk_HeadingAttrs_level()),
        decf_CodeBlockAttrs(o) is Some ==> has_str(o, jk_CodeBlockAttrs_params()),
        decf_BulletListAttrs(o) is Some ==> has_bool(o, jk_BulletListAttrs_tight()),
        decf_OrderedListAttrs(o) is Some ==> has_nat(o, jk_OrderedListAttrs_order()) && has_bool(o, jk_OrderedListAttrs_tight()),
        decf_ImageAttrs(o) is Some ==> has_str(o, jk_ImageAttrs_src()) && may_str(o, jk_ImageAttrs_alt()) && may_str(o, jk_ImageAttrs_title()),
        decf_LinkAttrs(o) is Some ==> has_str(o, jk_LinkAttrs_href()) && may_str(o, jk_LinkAttrs_title()),
        decf_Span(o) is Some ==> has_nat(o, jk_Span_from()) && has_nat(o, jk_Span_to()),
        decf_Slice(o) is Some ==> has_it(o, jk_Slice_content()),
        decf_ReplaceStep(o) is Some ==> decf_Span(o) is Some,
        decf_ReplaceAroundStep(o) is Some ==> decf_Span(o) is Some && has_nat(o, jk_ReplaceAroundStep_gap_from())
            && has_nat(o, jk_ReplaceAroundStep_gap_to()) && has_nat(o, jk_ReplaceAroundStep_insert()),
        decf_AddMarkStep(o) is Some ==> decf_Span(o) is Some && has_it(o, jk_AddMarkStep_mark()),
        decf_RemoveMarkStep(o) is Some ==> decf_Span(o) is Some && has_it(o, jk_RemoveMarkStep_mark()),
{
    broadcast use group_json;
    assert forall|k: Seq<char>| #[trigger] jfind(o, k) >= 0 && !may_str(o, k) implies string_or_default(o[jfind(o, k)].1) is None by {
        axiom_string_or_default(o[jfind(o, k)].1);
    }
    if let Some(x) = decv_MarkdownMark(v) { axiom_set_from(x); axiom_vec_of_view_MarkdownMark(decs_MarkdownMark(v->Arr_0)->0); }
}
//@END
