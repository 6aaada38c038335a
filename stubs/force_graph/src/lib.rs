//! Stand-in for force_graph 0.3: keeps node positions, with a trivial relaxation step.
pub type DefaultNodeIdx = usize;
#[derive(Clone, Debug, Default)]
pub struct SimulationParameters;
#[derive(Clone, Debug, Default)]
pub struct EdgeData<U = ()> {
    pub user_data: U,
}
#[derive(Clone, Debug)]
pub struct NodeData<U = ()> {
    pub x: f32,
    pub y: f32,
    pub mass: f32,
    pub is_anchor: bool,
    pub user_data: U,
}
pub struct Node<U> {
    pub data: NodeData<U>,
    index: DefaultNodeIdx,
}
impl<U> Node<U> {
    pub fn x(&self) -> f32 {
        self.data.x
    }
    pub fn y(&self) -> f32 {
        self.data.y
    }
    pub fn index(&self) -> DefaultNodeIdx {
        self.index
    }
}
pub struct ForceGraph<U = ()> {
    nodes: Vec<Node<U>>,
    edges: Vec<(usize, usize)>,
}
impl<U> ForceGraph<U> {
    pub fn new(_: SimulationParameters) -> Self {
        ForceGraph { nodes: vec![], edges: vec![] }
    }
    pub fn add_node(&mut self, data: NodeData<U>) -> DefaultNodeIdx {
        let index = self.nodes.len();
        self.nodes.push(Node { data, index });
        index
    }
    pub fn add_edge(&mut self, a: DefaultNodeIdx, b: DefaultNodeIdx, _e: EdgeData<()>) {
        self.edges.push((a, b));
    }
    pub fn update(&mut self, dt: f32) {
        for &(a, b) in &self.edges {
            let (dx, dy) =
                (self.nodes[b].data.x - self.nodes[a].data.x, self.nodes[b].data.y - self.nodes[a].data.y);
            if !self.nodes[a].data.is_anchor {
                self.nodes[a].data.x += dx * dt;
                self.nodes[a].data.y += dy * dt;
            }
            if !self.nodes[b].data.is_anchor {
                self.nodes[b].data.x -= dx * dt;
                self.nodes[b].data.y -= dy * dt;
            }
        }
    }
    pub fn visit_nodes<F: FnMut(&Node<U>)>(&self, mut f: F) {
        for n in &self.nodes {
            f(n)
        }
    }
    pub fn visit_edges<F: FnMut(&Node<U>, &Node<U>, &EdgeData<()>)>(&self, mut f: F) {
        let e = EdgeData::default();
        for &(a, b) in &self.edges {
            f(&self.nodes[a], &self.nodes[b], &e)
        }
    }
}
