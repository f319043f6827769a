## The builder methods: the same production as calling the constructor.
@module builder
@modprops C08
@open pub trait ProductionBuilder: IProduction + Sized {
    fn into_list(self) -> (r: List<Self>)
        ensures *r.symbol == self;
    fn into_node(self, node_value: Self::Node) -> (r: Node<Self>)
        ensures *r.production == self && r.node_value == node_value;
    fn into_hidden(self) -> (r: Hidden<Self>)
        ensures *r.production == self;
    fn into_lookahead(self, node_value: Option<Self::Node>) -> (r: Lookahead<Self>)
        ensures *r.production == self && r.node_value == node_value;
    fn into_separated_list<TS: IProduction<Node = Self::Node, Token = Self::Token>>(self, sep: &Rc<TS>, inclusive: bool) -> (r: SeparatedList<Self, TS>)
        ensures *r.production == self && r.separator == *sep && r.inclusive == inclusive;
    fn into_suffixes<TP: IProduction<Node = Self::Node>>(self, id: &'static str, standalone: bool) -> (r: Suffixes<Self>)
        ensures r.cells() && r.nt_helper.identifier == id && *r.left == self && r.standalone == standalone;
    fn into_nullable(self) -> (r: Nullable<Self>)
        ensures *r.symbol == self && r.node_value == Some(<Self::Node as NodeImpl>::null_s());
    fn validate_with<TF: Fn(&Vec<ASTNode<Self::Node>>, &[u8]) -> Result<(), ProductionError>>(self, validation_fn: TF) -> (r: Validator<Self, TF>)
        ensures *r.production == self && r.validation_fn == validation_fn;
    fn into_null_hidden(self) -> (r: Nullable<Self>)
        ensures *r.symbol == self && r.node_value is None;
@close
@open impl<T: IProduction> ProductionBuilder for T {
@fn ProductionBuilder@T::into_list
@props C06 C08
@fn ProductionBuilder@T::into_node
@fn ProductionBuilder@T::into_hidden
@fn ProductionBuilder@T::into_lookahead
@fn ProductionBuilder@T::into_separated_list
@props C06 C08
@fn ProductionBuilder@T::into_suffixes
@props C07 C08
@fn ProductionBuilder@T::into_nullable
@props C06 C08
@fn ProductionBuilder@T::validate_with
@props C08 ~C09 ~C10 ~C15
@fn ProductionBuilder@T::into_null_hidden
@props C06 C08
@close
