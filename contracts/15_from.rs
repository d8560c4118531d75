// ------------------------------------------------------------------ specs of the From impls
impl FromSpecImpl<String> for Text { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: String) -> Self { arbitrary() } }
impl FromSpecImpl<TextNode> for MarkdownNode { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: TextNode) -> Self { MarkdownNode::Text(e) } }
