"""Authored list of repaired and known defects; writes known_findings.json."""
import json
import os
import subprocess

FIXED = [
    ('C01', 'del_node on undirected graphs', 'del_node raised or left dangling entries on undirected graphs and for nodes with a self-loop'),
    ('C06', "own predecessor", 'search() made a node with a self-loop its own predecessor (also C04, C08)'),
    ('C06', 'reverse=True', 'search(reverse=True) with Dijkstra or Prim raised KeyError on directed graphs'),
    ('C08', 'minimum_spanning_tree_prim', 'minimum_spanning_tree_prim raised on every graph with a cycle and on a second call'),
    ('C28', 'hamiltonian() called a method that does not exist and never ended without a destination', 'hamiltonian() called a missing method and never ended without a destination'),
    ('C12', 'fix: acyclic_shortest_path failed', 'acyclic_shortest_path raised unless the source was the only root and the call the first'),
    ('C10', 'tarjan()', 'a second tarjan() left stale components'),
    ('C18', 'floyd_warshall_get_path repeated', 'floyd_warshall_get_path repeated inner nodes and raised for i == j'),
    ('C18', 'floyd_warshall gave', 'floyd_warshall distances of nodes with a self-loop'),
    ('C18', 'get_negative_cycle', 'get_negative_cycle raised IndexError on a graph without nodes'),
    ('C19', 'fifo_label_correcting', "fifo_label_correcting compared numbers with the string 'inf'"),
    ('C27', 'degree and diameter', 'degree and diameter methods raised without explicit type, get_degrees returned None'),
    ('C15', 'find_feasible_flow failed', 'find_feasible_flow raised on all-zero demands and accepted unmet demand'),
    ('C17', 'network simplex failed for node names', 'network simplex raised for node names that are not small integers'),
    ('C04', 'erased the component of its source', 'search() without component set that of its source to None, and ignored component for Dijkstra and Prim'),
    ('C21', 'Tree traversals', 'Tree traversals without a root argument used the Node object as a name'),
    ('C21', 'kept a deleted node as their parent', 'after del_node on a Tree, get_parent of the children still gave the deleted node (also C38)'),
    ('C22', 'a rejected add_left_child', 'a rejected add_left_child/add_right_child left a dangling child entry'),
    ('C22', 'BinaryTree.del_node failed on the root', 'BinaryTree.del_node raised on the root'),
    ('C23', 'postordereval and printexp', 'a child or a subresult 0 was treated as missing'),
    ('C23', 'operands that are not whole numbers', "postordereval truncated an operand 2.5 to 2 and raised for the text '2.5'"),
    ('C24', 'random() with degree_range', 'random(degree_range) raised without labels and added no edges without lengths'),
    ('C24', 'random(parallel_allowed=True)', 'random(parallel_allowed=True) raised on undirected graphs'),
    ('C24', 'node_selection=random', 'random(Euclidean=True, node_selection=random) used an undefined node'),
    ('C24', 'ignored parallel_allowed', 'random(Euclidean=True) ignored parallel_allowed and raised for large degrees'),
    ('C25', 'create_cluster overwrote', 'create_cluster overwrote earlier clusters and its argument'),
    ('C25', 'to_string failed for an edge inside a cluster', 'to_string raised for an edge inside a cluster of an undirected graph; colliding cluster names'),
    ('C04', 'DFS on a PriorityQueue', 'search(algo=DFS, q=PriorityQueue()) raised TypeError for paths of two or more edges'),
    ('C05', 'bfs() ran the depth-first', 'bfs() ran the depth-first algorithm on a queue'),
    ('C14', 'max_flow_preflowpush never ended for a source with a self-loop', 'max_flow_preflowpush with HighestLabel never ended for a source with a self-loop'),
    ('C17', 'network simplex never ended when an arc', 'network simplex never ended when an arc of capacity zero had a favourable reduced cost'),
    ('C22', 'BinaryTree.del_node failed for a node whose parent', 'BinaryTree.del_node raised for a node whose parent had been deleted'),
    ('C24', 'another node lies at distance 0', 'random(Euclidean=True) exceeded the degree when another node lies at distance 0'),
    ('C25', 'did not quote graph names', 'to_string did not quote graph names, cluster names and cluster attributes'),
    ('C25', 'to_string failed after a node of a cluster', 'to_string raised after a node of a cluster was deleted'),
    ('C26', 'needs_quotes left commas', "needs_quotes left '6,6', 'a\"b' and 'a\\n' without quotes"),
    ('C26', 'let a backslash escape', "quote_if_necessary wrote a text that ends in a backslash without closing quote"),
    ('C26', 'empty text for an empty string', 'quote_if_necessary wrote nothing for an empty string'),
    ('C26', 'attribute values with a colon', "an attribute value such as 'a:b' was written without quotes"),
    ('C01', 'equal but not identical string', 'a graph type given as an equal but not identical string (computed or unpickled) broke the graph'),
    ('C33', 'display argument of an algorithm', 'search, dfs, hamiltonian, both spanning tree methods, max_flow_preflowpush and min_cost_flow left the graph in the display mode of the call'),
    ('C32', 'missing or failing Graphviz', 'create() left its temporary file behind when Graphviz was missing or failed'),
    ('C32', 'when no picture could be shown', 'display() left its temporary file behind when Graphviz was missing or failed'),
    ('C18', 'could have a cost of zero or more', 'with several negative cycles get_negative_cycle could return a cycle of cost zero or more; min_cost_flow(algo=cycle_canceling) then never ended (also C16)'),
    ('C36', 'interrupted traverse()', 'traverse() of a tree, stopped at some step (closed window), left its nodes to the next traverse() of any tree'),
    ('C37', 'simplex solution could hold nodes', 'simplex_find_cycle returned, with the cycle, the path that leads to it, twice; the network simplex then moved only what that path can take'),
    ('C38', 'TypeError on a Tree', 'acyclic_shortest_path called the dfs() of a Tree, which takes other arguments, and raised TypeError'),
    ('C40', 'without their fractions', "the network simplex showed flow 0.5 of capacity 2.5 at cost 1.5 as '0/2/1'"),
    ('C40', 'left edges of an earlier tree green', 'a second minimum_spanning_tree_kruskal() (other costs) showed edges of both trees'),
    ('C40', 'only the nodes of the last component labelled', "label_components() left the label '-' on all nodes but those of the last component"),
    ('C40', 'did not mark the last node and edge', 'hamiltonian() left the last node of the path it found without number and its last edge without colour'),
]
KNOWN = []


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
    out = dict(findings=[], fixed=[])
    for p, key, what in FIXED:
        c = [l.split()[0] for l in log if key in l]
        assert len(c) == 1, (key, c)
        out['fixed'].append('fixed: property=%s %s %s' % (p, c[0], what))
    for k in KNOWN:
        out['findings'].append(dict(k, status='known'))
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'known_findings.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
