//! Offline stand-in for `force_graph` 0.3: a deterministic layout (nodes stay where they were put).
pub type DefaultNodeIdx = usize;
#[derive(Clone, Debug, Default)] pub struct SimulationParameters { pub force_charge: f32, pub force_spring: f32, pub force_max: f32, pub node_speed: f32, pub damping_factor: f32 }
#[derive(Clone, Debug, Default)] pub struct EdgeData<E = ()> { pub user_data: E }
#[derive(Clone, Debug)] pub struct NodeData<N = ()> { pub x: f32, pub y: f32, pub mass: f32, pub is_anchor: bool, pub user_data: N }
impl<N: Default> Default for NodeData<N> { fn default() -> Self { NodeData { x: 0., y: 0., mass: 10., is_anchor: false, user_data: N::default() } } }
#[derive(Clone, Debug)] pub struct Node<N = ()> { pub data: NodeData<N>, index: DefaultNodeIdx }
impl<N> Node<N> { pub fn x(&self) -> f32 { self.data.x } pub fn y(&self) -> f32 { self.data.y } pub fn index(&self) -> DefaultNodeIdx { self.index } }
pub struct ForceGraph<N = (), E = ()> { pub parameters: SimulationParameters, nodes: Vec<Node<N>>, edges: Vec<(usize, usize, EdgeData<E>)> }
impl<N, E> ForceGraph<N, E> {
    pub fn new(parameters: SimulationParameters) -> Self { ForceGraph { parameters, nodes: vec![], edges: vec![] } }
    pub fn add_node(&mut self, data: NodeData<N>) -> DefaultNodeIdx { let index = self.nodes.len(); self.nodes.push(Node { data, index }); index }
    pub fn add_edge(&mut self, a: DefaultNodeIdx, b: DefaultNodeIdx, e: EdgeData<E>) { self.edges.push((a, b, e)); }
    pub fn update(&mut self, _dt: f32) {}
    pub fn visit_nodes<F: FnMut(&Node<N>)>(&self, mut f: F) { for n in &self.nodes { f(n) } }
    pub fn visit_nodes_mut<F: FnMut(&mut Node<N>)>(&mut self, mut f: F) { for n in &mut self.nodes { f(n) } }
    pub fn visit_edges<F: FnMut(&Node<N>, &Node<N>, &EdgeData<E>)>(&self, mut f: F) { for (a, b, e) in &self.edges { f(&self.nodes[*a], &self.nodes[*b], e) } }
}
