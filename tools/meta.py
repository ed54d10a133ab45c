"""The authored property list.  `python3 tools/meta.py` writes properties.jsonl
and MANIFEST.json (a check is registered as soon as harness/<id>.py exists)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, T, K = 'src/gimpy/graph.py', 'src/gimpy/tree.py', 'src/gimpy/global_constants.py'
P = []


def prop(id, title, statement, over, text, why, mech, files=(G,), state=None, observe=None):
    a = dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


I, H, C = 'inputs', 'histories', 'configurations'

prop('C01', 'The graph container always describes exactly the graph the caller built',
     'After any sequence of accepted additions and deletions of nodes and edges, every query (node and edge lists, counts, neighbours, in- and out-neighbours, membership, edge checks) describes exactly the nodes and edges present, with no dangling or duplicate entry. This holds for directed and undirected graphs, self-loops and re-inserted items included.',
     [H, C], 'every sequence of mutations, every equality pattern of the names, both graph types',
     'tests build a handful of fixed graphs and never delete a node with a self-loop or on an undirected graph',
     [('add_node/add_edge', G + ':281-365'), ('del_node/del_edge', G + ':305-395'), ('queries', G + ':396-595')],
     state=[('neighbors, in_neighbors, nodes, edge_attr', 'the redundant tables that must agree', G + ':199-243')],
     observe=['Graph.get_node_list, get_edge_list, get_neighbors, get_in_neighbors, check_edge, __contains__'])
prop('C02', 'A rejected mutation raises and changes nothing',
     'Adding a node or an edge that is already there raises MultipleNodeException or MultipleEdgeException, deleting one that is not there raises an exception, and none of these changes what any query returns. On an undirected graph an edge is the same edge in both orientations.',
     [H, C], 'every reachable graph state and every rejected operation, both graph types',
     'the error paths are exercised once at most, and never with a comparison of the state before and after',
     [('duplicate checks', G + ':281-365'), ('missing item checks', G + ':305-395')],
     observe=['exceptions of add_node/add_edge/del_node/del_edge and all queries afterwards'])
prop('C03', 'Attributes are stored per item and read back unchanged',
     'The value of a node or edge attribute that is read is the last one written for that item (at insertion or later), in either orientation of an undirected edge; writing one item never changes another, and deleting and re-adding an item does not bring old values back.',
     [I, H], 'every graph, item, value and order of writes',
     'tests read back a few attributes of a fixed graph; aliasing between items needs writes after shared insertion',
     [('Node.set_attr/get_attr', G + ':132-158'), ('get/set_node_attr, get/set_edge_attr', G + ':480-553')],
     observe=['get_node_attr, get_edge_attr, get_edge_cost, Node.get_attr'])
prop('C04', 'search() returns a tree of real paths to exactly the reachable nodes',
     'For DFS, BFS and UnweightedSPT on any graph, search without a destination returns predecessors for exactly the nodes reachable from the source (other than the source), and following them leads back to the source over edges of the graph. With a destination it returns a path of the graph from the source to it, or nothing when it cannot be reached; reverse=True walks arcs backwards. A component number is put on exactly the nodes reached (Dijkstra and Prim included); without one no component changes.',
     [I, C], 'every graph, source, destination, direction, search type and node naming',
     'tests compare one or two seeded random graphs with a stored result',
     [('search', G + ':981-1111'), ('process_edge_search', G + ':1205-1273')], observe=['return value of Graph.search'])
prop('C05', 'Breadth-first search finds paths with the fewest edges',
     'search with BFS or UnweightedSPT (and bfs()) reaches every node by a path with the minimum number of edges, and the recorded distances are those minimum numbers.',
     [I, H], 'every graph, source, direction, and state left behind by earlier calls',
     'the stored expected outputs cover a few graphs in which the order of the queue does not matter',
     [('search BFS', G + ':981-1111'), ('bfs', G + ':937-951'), ('Queue', 'blist/queues of coinor.blimpy')],
     observe=['predecessors, paths and the distance attribute'])
prop('C06', 'Dijkstra search finds cheapest paths for non-negative costs',
     'For any graph with non-negative costs, search with Dijkstra returns predecessors or a path whose total cost is minimal among all paths, for exactly the reachable nodes, and the recorded distances are these minima. This includes reverse searches, ties, zero costs and repeated calls.',
     [I, H], 'all graphs, all non-negative costs, sources, destinations and directions',
     'one seeded graph is tested; an error needs a particular relation of costs (a later cheaper path, a tie)',
     [('search', G + ':981-1111'), ('process_edge_dijkstra', G + ':1128-1165')], observe=['Graph.search(algo="Dijkstra")'])
prop('C07', 'Kruskal returns a minimum spanning forest',
     'For any undirected graph and any costs, minimum_spanning_tree_kruskal returns edges of the graph without a cycle that connect whatever the graph connects, at the minimum total cost.',
     [I], 'all undirected graphs and all integer costs, ties and negative costs included',
     'one seeded graph is tested', [('minimum_spanning_tree_kruskal', G + ':1335-1383'), ('DisjointSet', G + ':3569-3679')],
     observe=['the returned edge list'])
prop('C08', 'Prim returns a minimum spanning tree of the reachable part',
     'For any undirected graph and any costs, search with Prim and minimum_spanning_tree_prim return a tree made of edges of the graph that connects exactly the nodes reachable from the source and has minimum total cost.',
     [I, H], 'all undirected graphs, sources, costs, and repeated calls',
     'one seeded graph is tested for search(); minimum_spanning_tree_prim is not reached',
     [('process_edge_prim', G + ':1167-1203'), ('minimum_spanning_tree_prim', G + ':1274-1333')],
     observe=['returned predecessors'])
prop('C09', 'label_components labels connected components',
     'After label_components on an undirected graph, two nodes carry the same component label exactly if they are connected, and the recorded number of components is right, whatever was labelled before.',
     [I, H], 'all undirected graphs and earlier labels', 'one seeded graph is tested',
     [('label_components', G + ':690-718')], observe=['component attribute, num_components'])
prop('C10', 'Strong components are labelled exactly',
     'After tarjan (or label_strong_component) on a directed graph, two nodes carry the same component label exactly if each can reach the other, and the recorded number of components is right, whatever was labelled before.',
     [I, H], 'all directed graphs, self-loops included, and earlier labels', 'one seeded graph is tested',
     [('tarjan/strong_connect', G + ':720-783'), ('label_strong_component', G + ':785-799')],
     observe=['component attribute, num_components'])
prop('C11', 'dfs() times nest properly and order acyclic graphs topologically',
     'dfs gives every node reachable from the root a discovery and a finishing time whose intervals nest or are disjoint as the depth-first tree requires, every edge leads to a node discovered before its tail finishes, and on acyclic graphs the produced order is topological. Counters carried from one call to the next keep these guarantees for full passes over several roots.',
     [I, H], 'all graphs, roots and carried counters', 'one seeded graph is tested',
     [('dfs', G + ':801-877')], observe=['disc_time, finish_time, topological_order'])
prop('C12', 'acyclic_shortest_path finds cheapest paths with any costs',
     'On any acyclic directed graph with any (also negative) costs, acyclic_shortest_path returns a cheapest path from the source to the destination, or cheapest-path predecessors for exactly the reachable nodes.',
     [I, H], 'all acyclic graphs, costs, sources and insertion orders', 'not tested',
     [('acyclic_shortest_path', G + ':953-979')], observe=['return value'])
prop('C13', 'Augmenting-path max_flow ends with a maximum flow',
     'max_flow (DFS or BFS) leaves on every arc a flow between zero and its capacity, conserves flow at every node other than source and sink, and its value equals the capacity of some cut, so that no larger flow exists.',
     [I], 'all networks without antiparallel arcs, all non-negative capacities, source, sink and both search orders',
     'one or two seeded networks are tested by value',
     [('max_flow', G + ':1937-2100')], observe=['flow attribute of every arc'])
prop('C14', 'Preflow-push ends with a maximum flow',
     'max_flow_preflowpush with FIFO, SAP or HighestLabel leaves on every arc a flow between zero and its capacity, conserves flow at every node other than source and sink, and the flow is maximum.',
     [I], 'all networks without antiparallel arcs, all non-negative capacities, the three algorithms',
     'one seeded network is tested by value',
     [('max_flow_preflowpush', G + ':1385-1498'), ('process_edge_flow', G + ':1500-1537'), ('relabel', G + ':1539-1559')],
     observe=['flow attribute of every arc'])
prop('C15', 'find_feasible_flow finds a feasible flow exactly if there is one',
     'find_feasible_flow returns True exactly when the demands can be met within the capacities, and then the flows on the arcs lie between zero and capacity and meet every demand. The graph has the same nodes and arcs afterwards.',
     [I], 'all networks, capacities and demands', 'one seeded network is tested indirectly',
     [('find_feasible_flow', G + ':1659-1708')], observe=['return value, flow attributes, node and edge lists'])
prop('C16', 'Cycle canceling returns a minimum cost flow',
     'On a network with a feasible flow, min_cost_flow with cycle canceling ends with flows within the capacities that meet all demands, and no other such flow costs less.',
     [I], 'all networks, costs (also negative), capacities and demands that admit a flow', 'one seeded network is tested by value',
     [('cycle_canceling', G + ':1617-1657'), ('get_negative_cycle', G + ':2102-2121'), ('augment_cycle', G + ':2385-2418')],
     observe=['flow attributes'])
prop('C17', 'Network simplex returns a minimum cost flow',
     'On a connected network with a feasible flow, min_cost_flow with the simplex algorithm ends, for either pivot rule and any root, with flows within the capacities that meet all demands, and no other such flow costs less.',
     [I, C], 'all connected networks, costs, capacities and demands that admit a flow, pivot rules, roots, names',
     'one seeded network is tested by value',
     [('min_cost_flow', G + ':3161-3242'), ('network_simplex and helpers', G + ':2420-3159')], observe=['flow attributes, return value'])
prop('C18', 'Floyd-Warshall gives exact distances, paths and negative cycles',
     'For a directed graph without negative cycle, floyd_warshall returns the cost of a cheapest path for every ordered pair (infinity when there is none) and floyd_warshall_get_path yields such a path. If the graph has a negative cycle it says so, and get_negative_cycle returns a cycle of the graph with negative cost exactly when one exists.',
     [I], 'all directed graphs, self-loops included, and all costs', 'not tested directly',
     [('floyd_warshall', G + ':2123-2193'), ('floyd_warshall_get_path', G + ':2195-2215'), ('floyd_warshall_get_cycle', G + ':2217-2239')],
     observe=['return values'])
prop('C19', 'FIFO label correcting is exact and detects negative cycles',
     'fifo_label_correcting returns cheapest-path distances and predecessors for the nodes reachable from the source when no negative cycle can be reached, and a reachable cycle of negative cost otherwise.',
     [I], 'all directed graphs and all costs', 'not tested',
     [('fifo_label_correcting', G + ':2281-2327'), ('label_correcting_check_cycle/get_cycle', G + ':2329-2383')],
     observe=['return value'])
prop('C20', 'DisjointSet maintains exactly the equivalence of its unions',
     'After any sequence of add and union, two elements have the same representative exactly if the unions connect them, with and without optimisation; union returns whether it merged two different sets.',
     [H, C], 'all histories of add/union/find, both settings', 'not tested beyond Kruskal on one graph',
     [('DisjointSet', G + ':3569-3679')], observe=['find, union'])
prop('C21', 'Tree stays a tree and traversals visit every node once in order',
     'After any accepted sequence of add_root, add_child and del_node, every node has exactly the parent it was given (none for the root and when the parent was deleted), children are listed in insertion order, adding a child under a name that exists is rejected and changes nothing, and dfs/bfs visit every node of the subtree of the start node exactly once, each node after its parent and, for bfs, by increasing depth.',
     [H], 'all construction histories, start nodes and names', 'two fixed trees are tested',
     [('Tree', T + ':17-198')], files=(T, G), observe=['get_children, get_parent, displayed visiting order'])
prop('C22', 'BinaryTree slots, orders and deletion are exact',
     'In a binary tree every child is found in exactly the slot it was added to, a used slot rejects a second child and leaves the tree unchanged, deleting a node removes that node and frees exactly the slot it occupied, and print_nodes lists the nodes in the requested order (in, pre, post; either priority).',
     [H, C], 'all construction and deletion histories, orders and priorities', 'fixed trees are tested',
     [('BinaryTree', T + ':200-453')], files=(T, G), observe=['get_left_child, get_right_child, print_nodes output'])
prop('C23', 'Expression trees evaluate and print to the same value',
     'postordereval returns the value of the expression the binary tree (or the part of it below the node asked for) stands for, and printexp prints an infix expression with that same value. Operands are numbers, whole or not, given as the label (number or text) or the name of the node.',
     [I], 'all expression trees and operand values', 'one expression is tested',
     [('postordereval', T + ':486-542'), ('printexp', T + ':455-484')], files=(T,), observe=['return value and printed text'])
prop('C24', 'random() builds only graphs of the requested kind',
     'Whatever the random draws, Graph.random builds exactly the requested nodes with distinct names, edges between nodes of the graph that respect type, the parallel-edge option, degree and density parameters, and costs inside length_range (the rounded scaled distance for Euclidean graphs, whose nodes lie in the square of the scale and, with the rule closest, are joined to closest nodes); nodes and edges carry the formats given, all draws are those of the seed given, and it fails on no draw.',
     [I, C], 'all outcomes of the random generator and the documented parameter combinations',
     'tests fix one seed per call', [('random', G + ':3244-3399')], observe=['node list, edge list, attributes'])
prop('C25', 'The DOT text contains every node and edge exactly once',
     'to_string yields one DOT statement per node and per edge of the graph, in or outside clusters, with the arrow of the graph type and the displayed attributes, whatever clusters were created and whatever was deleted before.',
     [H, C], 'all graphs, clusters and histories, both types', 'tests compare two fixed graphs',
     [('to_string', G + ':626-688'), ('edge_to_string', G + ':597-624'), ('create_cluster', G + ':3535-3567')],
     observe=['return value of to_string'])
prop('C26', 'Names and labels are written as valid DOT identifiers that mean the same',
     'For every string, the text that is put in the DOT source for a name, label or other attribute is one valid DOT identifier that stands for exactly that string. Passed on as written, as documented in needs_quotes, are DOT keywords, <HTML> strings, strings the user has quoted, and ports in node names; escape sequences keep their DOT meaning.',
     [I], 'all strings', 'a few plain names are tested',
     [('quote_if_necessary/needs_quotes', K + ':130-174')], files=(K, G), observe=['DOT text'])
prop('C27', 'Degrees and diameter are exact',
     'get_degrees, get_in_degrees and get_out_degrees count the edges at every node, and get_diameter of a connected undirected graph is the largest number of edges of a shortest path between two nodes; a disconnected graph is reported, not measured.',
     [I], 'all graphs', 'not tested', [('degrees', G + ':3445-3500'), ('get_diameter', G + ':3502-3533')], observe=['return values'])
prop('C28', 'hamiltonian() finds a Hamiltonian path exactly if one exists',
     'hamiltonian reports success exactly if there is a path from the source that visits every node once (and ends in the destination when one is given), and then the recorded path is such a path.',
     [I], 'all graphs, sources and destinations', 'not tested (the call raised an exception)',
     [('hamiltonian', G + ':879-935')], observe=['return value and recorded path'])
prop('C29', 'Residual graph and cycle augmentation preserve a feasible flow',
     'For any feasible flow, the residual graph has exactly the arcs and capacities along which flow can be added or withdrawn, with costs negated for withdrawal; augmenting along a residual cycle by at most its capacity keeps the flow feasible and changes its cost by amount times the cost of the cycle.',
     [I], 'all networks, flows and residual cycles', 'reached only inside one cycle canceling run',
     [('create_residual_graph', G + ':1590-1615'), ('find_cycle_capacity', G + ':2256-2279'), ('augment_cycle', G + ':2385-2418')],
     observe=['residual arcs, flow attributes'])
prop('C30', 'PageRank values follow the random surfer recurrence',
     'page_rank returns for every node the value of the damped random surfer recurrence after the performed iterations, and stops no later than max_iterations.',
     [I], 'all graphs and parameters', 'not tested',
     [('page_rank', G + ':3401-3443')], observe=['return value'])
prop('C31', 'Algorithms do not change the graph they are asked about',
     'A call of any algorithm (searches, spanning trees, components, flows, distances, degrees, drawing as text) leaves the nodes, edges, costs, capacities and demands of the graph exactly as they were.',
     [I, H], 'all graphs, attribute values and algorithms', 'tests look at the result of an algorithm only',
     [('all algorithms of Graph', G), ('find_feasible_flow restores the graph', G + ':1659-1708')],
     observe=['node and edge lists and attributes before and after'])
prop('C32', 'Drawing hands the text of the graph to the back end, and leaves nothing behind',
     'write and display hand exactly the DOT text of the graph, with the layout and format asked for, to the selected back end (Graphviz for a file, PIL, matplotlib, xdot; dot2tex is not covered); display mode off shows nothing; highlighted nodes are red. A missing or failing Graphviz or library is reported. Drawing changes neither the graph (apart from the highlight) nor the display mode, and no temporary file is left behind, whatever happens.',
     [C, 'fault_sequences'], 'all graphs, display modes, layouts, formats, Graphviz present, missing, warning or failing, and libraries missing',
     'the display tests are skipped without the back ends, and no test makes Graphviz fail',
     [('write/create/display', G + ':1734-1935')], observe=['file contents, arguments of the back ends, temporary directory'])
prop('C33', 'Showing the steps of an algorithm changes neither its result nor the display mode',
     'An algorithm called with a display mode (that of the graph or its display argument) ends in the same way, with the same result and the same nodes, edges and attributes (colours and labels apart), as with display off; every step shown is DOT text of the whole graph, and afterwards the graph has the display mode it had before, as the module documentation promises. The walks of trees (dfs, bfs, traverse, print_nodes, printexp, postordereval) print the same when shown and show one picture per visited node, with that node highlighted.',
     [I, C], 'all graphs, attribute values, algorithms and both ways of selecting a display mode',
     'tests run with display off; a display statement inside a branch of an algorithm is never executed',
     [('display calls in all algorithms', G), ('module documentation', G + ':1-60'), ('tree walks', T)],
     observe=['return values, attributes, set_display_mode, texts handed to the back end'])

prop('C34', 'A request outside the domain of an operation is refused and changes nothing',
     'An unknown algorithm, pivot or selection rule, an algorithm of the other graph type, a negative cycle that does not exist (or not through the element asked for), an existing cluster name, an attribute, a neighbour or an edge of an item that is not there: such a request raises an exception, or prints a message and returns None, and leaves the graph as it was. It is never answered with a value. (A simplex with an unknown pivot rule may return the optimum when no pivot was needed.)',
     [I, C], 'all graphs, attribute values and requests of the listed kinds',
     'tests ask for things that exist; which graphs have no negative cycle through a node depends on all costs',
     [('search', G + ':981-1110'), ('min_cost_flow', G + ':3161-3242'), ('floyd_warshall_get_cycle', G + ':2217-2239'),
      ('create_cluster', G + ':3535-3567'), ('label_components, create_residual_graph, degrees, diameter', G), ('random', G + ':3244-3399'),
      ('get_node, get_*_attr, check_edge', G + ':396-592')],
     observe=['exceptions, standard output, all queries and attributes afterwards'])

prop('C35', 'The result of an algorithm depends on the graph, not on the algorithms that ran on it before',
     'Run on a graph on which another algorithm was run (and which may have been changed in between: a node or an edge deleted, added or replaced), every algorithm ends in the same way, returns the same value and leaves the same values (distances, components, flows) as on a fresh graph with the same nodes, edges and data. (dfs called directly continues the search before it, by design.)',
     [I, C], 'all pairs of algorithms, graphs, costs and capacities',
     'what is left over by the first run matters only for some pairs, on some graphs; tests run one algorithm on one new graph',
     [('search', G + ':981-1110'), ('label_components', G), ('tarjan', G), ('max_flow', G), ('max_flow_preflowpush', G), ('min_cost_flow', G),
      ('Kruskal, Prim, Floyd-Warshall, FIFO, hamiltonian', G)],
     observe=['exceptions, returned values, node and edge attributes that are documented results'])

prop('C36', 'Graphs are independent of each other and of the data of the caller',
     'Making, changing, drawing as text or analysing one graph (Graph, Tree, BinaryTree or DisjointSet) never changes what another one shows or how it behaves. Lists, dictionaries and tables the caller passes in are left as they are; changing them later, or changing a returned node or edge list, does not change the graph; results returned earlier stay as they were.',
     [I, C], 'all pairs of classes, uses, graphs, names and values',
     'shared state (a default value, a table of the class, an alias) shows only when two objects or a second use of the same list meet',
     [('constructors', G + ':199-243'), ('Node', G + ':107-158'), ('create_cluster', G + ':3535-3567'), ('Tree, BinaryTree', 'src/gimpy/tree.py'),
      ('DisjointSet', G + ':3569-3655')],
     observe=['all queries, attributes and texts of one object before and after the use of another one; arguments after a call'])

prop('C37', 'Every step of the network simplex method keeps a spanning tree solution',
     'For every flow within the capacities of a connected network: simplex_find_cycle finds a cycle of the arcs strictly between their bounds exactly if there is one, simplex_find_tree gives a spanning tree with every other arc empty or full and keeps the net outflow of every node, simplex_search gives the predecessors, depths and a thread of the rooted tree, potentials make reduced costs of tree arcs zero, simplex_optimal tells exactly whether some other arc has a reduced cost of the wrong sign, the entering arc is such an arc (a worst one for dantzig), and a pivot changes the flow along the cycle it closes by exactly what the cycle can take, exchanges a blocking arc for the entering one and never raises the cost.',
     [I, H], 'all networks, flows, costs, roots, entering arcs and sequences of pivots',
     'tests look at the flow at the end; thread, depth and potentials are seen by nobody, and a wrong step is often repaired by later ones',
     [('network_simplex and helpers', G + ':2420-3159')],
     observe=['trees, flows and node attributes after each step'])

prop('C38', 'A tree answers as the graph it is',
     'A Tree or BinaryTree built with add_root, add_child, add_left_child and add_right_child (and changed with del_node) answers every query, and every algorithm of Graph (searches, paths, flows, components, degrees, page rank), like the directed graph with the same nodes and arcs from parents to children.',
     [I, C, H], 'all trees, histories, costs and algorithms',
     'tests of trees use the methods of trees only',
     [('Tree, BinaryTree', 'src/gimpy/tree.py'), ('acyclic_shortest_path', G + ':954-980'), ('all algorithms of Graph', G)],
     observe=['exceptions, returned values, node and edge attributes that are documented results'])

prop('C39', 'print_flow and the text of a graph report exactly what is there',
     'print_flow prints exactly one line for every arc that carries flow, with the arc, its flow and its capacity, and changes nothing; the text of a graph (repr) has exactly one line for every node, with its neighbours in order.',
     [I, C], 'all graphs, flows, capacities and changes before',
     'nothing printed is tested',
     [('print_flow', G + ':2606-2618'), ('Graph.__repr__', G + ':244-259')],
     observe=['standard output, repr'])
prop('C40', 'The labels and colours a run leaves tell what it found',
     'After a search (or dfs) exactly the reached nodes are green and exactly the edges of the tree are, with the distance, depth, cost or times as the labels of the nodes; component numbers given are the labels, and label_components labels every node with its component. Kruskal and Prim leave exactly the edges of the tree green, hamiltonian the edges of the path it found, whose nodes it numbers. Maximum flow methods label every arc with capacity and flow; max_flow marks one side of a minimum cut blue, preflow push labels nodes with excess and distance and colours arcs by full, in use and empty. The network simplex labels every arc with flow, capacity and cost and marks the arcs of a spanning tree. Marks of an earlier run of the same method do not survive. Where steps are shown, the last picture shows these marks.',
     [I, H], 'all graphs, starts, costs, capacities, component numbers, and a run before',
     'no test looks at labels or colours after a run',
     [('search', G + ':981-1112'), ('process_edge_search', G + ':1205-1273'), ('label_components', G + ':690-721'), ('dfs', G + ':801-877'), ('hamiltonian', G + ':879-937'),
      ('kruskal', G + ':1335-1384'), ('prim', G + ':1274-1324'), ('show_flow', G + ':1561-1591'), ('max_flow', G + ':1937-2096'), ('simplex_mark_st_arcs', G + ':2570-2610')],
     observe=['attributes label and color of nodes and edges, pictures handed to the back end'])

NA = {}

TECH = 'symbolic execution of the real Python code, assertions decided by z3 (SMT), counterexample replayed'
NOTE = ('Bounded: all paths of the listed scenarios, each assertion proved by z3 for all values of the symbolic data '
        '(%s). Outside: %s. Trusts CPython, z3, the symbolic integer type (every path is re-run on a concrete model of its '
        'path condition), and the specification in harness/%s.py.')


def main():
    sys.path.insert(0, ROOT)
    checks, na = [], []
    for p in P:
        i = p['id']
        f = os.path.join(ROOT, 'harness', i + '.py')
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(f):
            m = importlib.import_module('harness.' + i)
            checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i,
                               thorough_cmd='./check.sh %s --tier thorough' % i,
                               technique=TECH, level='model_checking',
                               level_note=NOTE % (m.BOUNDS['quick'], m.OUTSIDE, i)))
        else:
            na.append(dict(property=i, reason='check under construction'))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               hooks=dict(guard='none', enable='no hooks are needed: the checks import the unmodified package from /repo/src',
                          source_commits=[]),
               notes='one entry point, check.sh; see DESIGN.md')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
