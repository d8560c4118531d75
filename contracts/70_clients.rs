//@ONLY C16
// ------------------------------------------------------------------ what a user gets, from the contracts alone
/// a range of a valid document can be replaced by its own slice, which gives back the same document
pub fn client_own_slice(doc: &MarkdownNode, from: usize, to: usize, include_parents: bool) -> (r: Option<MarkdownNode>)
    requires wf_node(*doc), valid_node(*doc), from <= to <= flat(kids(*doc)).len(), bnd(flat(kids(*doc)), from as int), bnd(flat(kids(*doc)), to as int)
    ensures
        r matches Some(n) && head(n) == head(*doc) && flat(kids(n)) == flat(kids(*doc)) && wf_node(n) && valid_node(n),
        norm_node(*doc) && !is_text(*doc) ==> same_node(*doc, r->Some_0),
{
    hide(flat); hide(may_replace); hide(inserts); hide(bnd); hide(fits); hide(slice_ok); hide(stays_valid); hide(valid_around); hide(closed_valid);
    proof { lemma_wf_cont(*doc); lemma_valid(*doc); }
    let s = match doc.slice(VRange::new(vbound_incl(from), vbound_excl(to)), include_parents) { Ok(s) => s, Err(_) => { return None; } };
    proof { lemma_own(*doc, from as int, to as int, include_parents, s); }
    match doc.replace(VRange::new(vbound_incl(from), vbound_excl(to)), &s) {
        Ok(n) => {
            proof {
                lemma_valid(n);
                if norm_node(*doc) && !is_text(*doc) { lemma_unique_node(*doc, n); }
            }
            Some(n)
        }
        Err(_) => None,
    }
}
//@END
//@ONLY C05
/// what a step of a history may be for the document to stay valid
pub open spec fn good_step(s: Step) -> bool {
    !(s is ReplaceAround) && (s matches Step::Replace(x) ==> wf_frag(x.slice.content) && closed_valid(x.slice) && norm(x.slice.content.inner@))
}
/// a history of steps, of which those that fail are left out, keeps a document exact, valid and joined
pub fn client_history(doc: MarkdownNode, steps: &Vec<Step>) -> (r: MarkdownNode)
    requires wf_node(doc), forall|i: int| 0 <= i < steps@.len() ==> good_step(#[trigger] steps@[i])
    ensures wf_node(r), valid_node(doc) ==> valid_node(r), norm_node(doc) ==> norm_node(r), head(r) == head(doc)
{
    let mut d = doc;
    let mut i: usize = 0;
    while i < steps.len()
        invariant
            i <= steps@.len(), forall|i: int| 0 <= i < steps@.len() ==> good_step(#[trigger] steps@[i]),
            wf_node(d), valid_node(doc) ==> valid_node(d), norm_node(doc) ==> norm_node(d), head(d) == head(doc),
        decreases steps@.len() - i,
    {
        assert(good_step(steps@[i as int]));
        match steps[i].apply(&d) { Ok(n) => { d = n; } Err(_) => {} }
        i += 1;
    }
    d
}
//@END
