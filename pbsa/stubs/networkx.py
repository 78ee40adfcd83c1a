""" The part of networkx the package inherits from: insertion-ordered graphs. """


class _Edges:
  def __init__(self, pairs):
    self._pairs = pairs

  def __iter__(self):
    return iter(self._pairs)

  def __call__(self):
    return self

  def __len__(self):
    return len(self._pairs)

  def __contains__(self, pair):
    return tuple(pair) in self._pairs


class Graph:
  def __init__(self, incoming_graph_data=None, **attr):
    self.graph = {}
    self._node = {}
    self._adj = {}

  @property
  def nodes(self):
    return list(self._node)

  @property
  def adj(self):
    return self._adj

  @property
  def edges(self):
    pairs = []
    for u in self._adj:
      for v in self._adj[u]:
        if (v, u) not in pairs:
          pairs.append((u, v))
    return _Edges(pairs)

  def number_of_nodes(self):
    return len(self._node)

  def order(self):
    return len(self._node)

  def number_of_edges(self):
    return len(self.edges)

  def has_node(self, n):
    return n in self._node

  def has_edge(self, u, v):
    return u in self._adj and v in self._adj[u]

  def neighbors(self, n):
    return iter(list(self._adj[n]))

  def add_node(self, node_for_adding, **attr):
    if node_for_adding not in self._node:
      self._adj[node_for_adding] = {}
      self._node[node_for_adding] = {}

  def add_nodes_from(self, nodes_for_adding, **attr):
    for n in nodes_for_adding:
      if n not in self._node:
        self._adj[n] = {}
        self._node[n] = {}

  def add_edge(self, u_of_edge, v_of_edge, **attr):
    for n in (u_of_edge, v_of_edge):
      if n not in self._node:
        self._adj[n] = {}
        self._node[n] = {}
    self._adj[u_of_edge][v_of_edge] = {}
    self._adj[v_of_edge][u_of_edge] = {}

  def add_edges_from(self, ebunch_to_add, **attr):
    for e in ebunch_to_add:
      Graph.add_edge(self, e[0], e[1])

  def remove_edges_from(self, ebunch):
    for e in list(ebunch):
      if e[1] in self._adj[e[0]]:
        del self._adj[e[0]][e[1]]
        if e[0] in self._adj[e[1]]:
          del self._adj[e[1]][e[0]]

  def __iter__(self):
    return iter(list(self._node))

  def __contains__(self, n):
    return n in self._node

  def __len__(self):
    return len(self._node)

  def __getitem__(self, n):
    return self._adj[n]


class DiGraph(Graph):
  def __init__(self, incoming_graph_data=None, **attr):
    self.graph = {}
    self._node = {}
    self._adj = {}
    self._succ = self._adj
    self._pred = {}

  @property
  def edges(self):
    return _Edges([(u, v) for u in self._adj for v in self._adj[u]])

  def add_node(self, node_for_adding, **attr):
    if node_for_adding not in self._node:
      self._adj[node_for_adding] = {}
      self._pred[node_for_adding] = {}
      self._node[node_for_adding] = {}

  def add_nodes_from(self, nodes_for_adding, **attr):
    for n in nodes_for_adding:
      DiGraph.add_node(self, n)

  def add_edge(self, u_of_edge, v_of_edge, **attr):
    DiGraph.add_node(self, u_of_edge)
    DiGraph.add_node(self, v_of_edge)
    self._adj[u_of_edge][v_of_edge] = {}
    self._pred[v_of_edge][u_of_edge] = {}

  def add_edges_from(self, ebunch_to_add, **attr):
    for e in ebunch_to_add:
      DiGraph.add_edge(self, e[0], e[1])

  def remove_edges_from(self, ebunch):
    for e in list(ebunch):
      if e[0] in self._adj and e[1] in self._adj[e[0]]:
        del self._adj[e[0]][e[1]]
        del self._pred[e[1]][e[0]]

  def successors(self, n):
    return iter(list(self._adj[n]))

  def predecessors(self, n):
    return iter(list(self._pred[n]))

  def has_successor(self, u, v):
    return u in self._adj and v in self._adj[u]

  def has_predecessor(self, u, v):
    return u in self._pred and v in self._pred[u]

  def in_degree(self, n):
    return len(self._pred[n])

  def out_degree(self, n):
    return len(self._adj[n])
