BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo="from demolib import *\n" + RULES + demo, needs=needs, breaks=breaks))


RULES = '''
from noqx.rule.common import *
from noqx.rule.helper import *
from noqx.rule.loop import *
from noqx.rule.neighbor import *
from noqx.rule.reachable import *
from noqx.rule.shape import *
from noqx.rule.variety import *
import clingo as asp


def sets(program):
    ctl = asp.Control(["0"], logger=lambda *_: None)
    ctl.add("base", [], program)
    ctl.ground([("base", [])])
    n = 0
    with ctl.solve(yield_=True) as h:
        for _ in h:
            n += 1
    return n
'''

bug("unknown-src-self", "C15",
    [("noqx/rule/reachable.py", '    return f":- grid(R, C), {color}(R, C), not {tag}(_, _, R, C)."\n\n\ndef clue_bit',
      '    return f":- grid(R, C), {color}(R, C), not {tag}(_, _, R, C), adj_{adj_type}(R, C, _, _)."\n\n\ndef clue_bit')],
    """
p = grid(1, 3) + 'grid_direction(0, 0, "r"). grid_direction(0, 1, "l"). black(0..0, 0..2).' + adjacent("loop")
p += grid_src_color_connected((0, 0), adj_type="loop") + avoid_unknown_src(adj_type="loop")
want(sets(p) == 0, "a cell off every line counts as reached")
done()
""", "a coloured cell without any neighbour", "coloured cells without neighbours need not be reached from a source")

bug("avoid-fixed-corner", "C16",
    [("noqx/rule/shape.py", '        rect_pattern.append(f"grid({corner_r} + {rect_r - 1}, {corner_c} + {rect_c - 1})")',
      '        rect_pattern.append(f"grid({corner_r} + {rect_r}, {corner_c} + {rect_c - 1})" if corner_c != "C" else f"grid({corner_r} + {rect_r - 1}, {corner_c} + {rect_c - 1})")')],
    """
p = grid(3, 2) + shade_c() + avoid_rect(2, 1, corner=(None, 0))
want(sets(p) == 5 * 8, f"{sets(p)} colourings without two black cells below each other in the first column, there are 40")
done()
""", "a forbidden block with a fixed column, in the last rows", "a fixed-column block in the last rows is not forbidden")

bug("range-gap", "C17",
    [("noqx/rule/common.py", "_range[i + 1] - _range[i] == 1:", "_range[i + 1] - _range[i] <= 1 + (i > start):")],
    """
want(sets(grid(1, 1) + fill_num([1, 2, 4])) == 3, "numbers other than 1, 2, 4 are filled in")
done()
""", "a set of numbers with a run followed by a gap of one", "numbers inside a gap of the range are filled in")

bug("op-ge", "C17",
    [("noqx/rule/helper.py", '"lt": ">=", "ne": "="', '"lt": ">", "ne": "="')],
    """
want(sets(grid(1, 2) + shade_c() + count(('lt', 2))) == 3, "fewer than 2 includes 2")
done()
""", "the operator lt", "fewer-than also accepts the number itself")

bug("borders-below", "C17",
    [("noqx/rule/neighbor.py", '    return f":- {{ {v_1}; {v_2}; {h_1}; {h_2} }} {rop} {num}."', '    return f":- {{ {v_1}; {v_2}; {h_1}; {h_2} }} {rop if num < 4 else \'>\'} {num}."')],
    """
p = grid(1, 2) + edge(1, 2) + count_adjacent_edges(4, (0, 0))
want(sets(p) == 1, "a clue of 4 borders accepts 3")
done()
""", "a clue of four borders", "a clue of four is ignored")

bug("crossing-path-end", "C18",
    [("noqx/rule/loop.py", """    if path:  # pragma: no cover
        visit_constraints.append("not dead_end(R, C)")
        rule += ":- dead_end(R, C), grid(R, C), #count { D: grid_direction(R, C, D) } != 1.\\n\"""",
      """    if path:  # pragma: no cover
        visit_constraints.append("not dead_end(R, C)")
        rule += ":- dead_end(R, C), grid(R, C), #count { D: grid_direction(R, C, D) } = (0;2;4).\\n\"""")],
    """
p = grid(2, 3) + direction("lurd") + "white(0..1, 0..2). dead_end(0, 1). dead_end(1, 1)." + fill_path("white") + intersect_loop("white", path=True)
n = sets(p)
want(n == 0, f"{n} drawings in which a path end has three arms")
done()
""", "a crossing path with end cells of three arms", "an end cell may have three arms")

bug("end-of-directed-path", "C18",
    [("noqx/rule/loop.py", """        constraint += ":- path_end(R, C), grid(R, C), #count { D: grid_in(R, C, D) } != 1.\\n\"""",
      """        constraint += f":- path_end(R, C), {color}(R, C), not path_start(R, C), #count {{ D: grid_in(R, C, D) }} != 1.\\n\"""")],
    """
p = grid(1, 2) + direction("lurd") + shade_c("white") + "path_end(0, 0). :- white(0, 0). #defined path_start/2." + fill_path("white", directed=True) + directed_loop("white", path=True)
want(sets(p) == 0, "an end of a path that no path reaches is accepted")
done()
""", "a path end in a cell that may stay unvisited", "the path need not reach its end")

bug("diag-edge", "C18",
    [("noqx/rule/loop.py", """            rule += f'edge_{d}(R, C) :- grid_out({new_row}, C, "{pos}").\\n'""", """            rule += f'edge_{d}(R, C) :- grid_out({new_row.replace("+ 1", "")}, C, "{pos}").\\n'""")],
    """
p = 'grid_out(1, 0, "ur"). #defined grid_in/3.' + convert_direction_to_edge(directed=True, diagonal=True) + ":- edge_diag_up(0, 0)."
want(sets(p) == 0, "an outgoing line to the upper right does not become a border of the cell above")
done()
""", "a directed diagonal line to the upper right", "outgoing diagonals are drawn one row too low")

bug("branch-last-row", "C15",
    [("noqx/rule/reachable.py", """        constraint += f":- {tag}(R, C, R + 1, C), edge_top(R + 1, C).\\n"
        constraint += f":- {tag}(R, C + 1, R, C), edge_left(R, C + 1).\\n"
        constraint += f":- {tag}(R + 1, C, R, C), edge_top(R + 1, C)."
        return initial""", """        constraint += f":- {tag}(R, C, R + 1, C), edge_top(R + 1, C), grid(R + 2, C).\\n"
        constraint += f":- {tag}(R, C + 1, R, C), edge_left(R, C + 1).\\n"
        constraint += f":- {tag}(R + 1, C, R, C), edge_top(R + 1, C), grid(R + 2, C)."
        return initial""")],
    """
p = grid(2, 2) + edge(2, 2) + adjacent("edge") + grid_branch_color_connected(color=None, adj_type="edge")
want(sets(p) == 12, f"{sets(p)} divisions of a 2x2 board, there are 12")
done()
""", "a border that ends inside a region, next to the last row", "a dangling border above the last row is accepted")

bug("area-diagonal", "C15",
    [("noqx/rule/reachable.py", 'area(A, R, C), {color}(R, C), adj_{adj_type}(R, C, R1, C1)."', 'area(A, R, C), {color}(R, C), adj_{adj_type}(R, C, R1, C1), R >= R1 - {1 if adj_type == 4 else 0}."')],
    """
p = grid(2, 2) + area(0, [(0, 0), (0, 1), (1, 0), (1, 1)]) + shade_c() + adjacent(8) + area_color_connected(adj_type=8)
p += ":- black(0, 0). :- not black(0, 1). :- not black(1, 0). :- black(1, 1)."
want(sets(p) == 1, "two diagonal neighbours are connected")
p = grid(2, 3) + area(0, [(r, c) for r in range(2) for c in range(3)]) + shade_c() + adjacent(8) + area_color_connected(adj_type=8)
p += ":- not black(0, 0). :- black(0, 1). :- not black(0, 2). :- black(1, 0). :- not black(1, 1). :- black(1, 2)."
want(sets(p) == 1, "a V of three diagonal neighbours is connected")
done()
""", "an area whose group connects diagonally upwards, eight neighbours", "groups connected upwards by diagonals are refused")

bug("pentomino-8", "C16",
    [("noqx/rule/shape.py", "    neighbor_type = adj_type if adj_type in [4, 8, \"x\"] else 4\n", "    neighbor_type = adj_type if adj_type in [4, \"x\"] else 4\n")],
    """
p = grid(2, 4) + shade_c() + adjacent(8) + general_shape("d", 0, OMINOES[2]["I"], adj_type=8) + all_shapes("d")
p += ":- not black(0, 0). :- not black(0, 1). :- not black(1, 2). :- not black(1, 3). :- black(0, 2). :- black(0, 3). :- black(1, 0). :- black(1, 1)."
want(sets(p) == 0, "a domino that touches a cell at a corner counts as separate")
done()
""", "shapes recognised with eight neighbours", "shapes that touch others at a corner count as separate")
