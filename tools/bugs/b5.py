BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo="from demolib import *\n" + demo, needs=needs, breaks=breaks))


bug("page-wraps-to-second", "C24",
    [("penpa-edit/app.js", """        solutionPointer = 0;
      }
      solveButton""", """        solutionPointer = 1;
      }
      solveButton""")],
    """
p = Page()
p.do("draw", value="m=edit&p=7abc")
p.do("type", value="hitori")
p.do("solve")
links = ["m=edit&p=a", "m=edit&p=b", "m=edit&p=c"]
want(p.answer(links)["loads"] == links[:1], "the first answer is not shown")
for i in (1, 2, 0, 1):
    r = p.do("solve")
    want(r["loads"] == [links[i]] and r["label"] == f"Solution ({i + 1}/3)", f"shows {r['loads']} as {r['label']}")
done()
""", "three answers and stepping past the last one", "after the last answer the page goes on with the second, the first is never shown again")

bug("page-resets-to-answer", "C24",
    [("penpa-edit/app.js", """    if (solutionPointer === -1) {
      puzzleContent = exp();
""", """    puzzleContent = exp();
    if (solutionPointer === -1) {
""")],
    """
p = Page()
p.do("draw", value="m=edit&p=7abc")
p.do("type", value="hitori")
p.do("solve")
p.answer(["m=edit&p=a", "m=edit&p=b"])
p.do("draw", value="m=edit&p=a")
p.do("solve")
r = p.do("reset")
want(r["imported"] == ["./penpa-edit/#m=edit&p=7abc"], f"Reset brings {r['imported']}")
done()
""", "stepping to another answer, then Reset", "Reset brings back the board with an answer drawn in, not the user's board")

bug("page-second-reset", "C24",
    [("penpa-edit/app.js", """    puzzleContent = null;
    solutionList = [];
""", """    solutionList = [];
""")],
    """
p = Page()
p.do("draw", value="m=edit&p=7abc")
p.do("type", value="hitori")
p.do("solve")
p.answer(["m=edit&p=a"])
p.do("reset")
p.do("draw", value="m=edit&p=7other")
r = p.do("reset")
want(r["imported"] == [] and r["opened"] == 1, f"Reset brings {r['imported']} over another board")
done()
""", "Reset, another board drawn by hand, Reset", "Reset brings back a board of long ago over what the user has drawn")

bug("page-late-result", "C24",
    [("penpa-edit/app.js", """solveButton.textContent === "Solving..." && solveButton.disabled === true) {""",
      """solveButton.textContent === "Solving..." && solveButton.disabled === false) {""")],
    """
p = Page(deployed=True)
p.do("draw", value="m=edit&p=7abc")
p.do("type", value="hitori")
p.do("solve")
p.do("reset")
r = p.do("deliver", index=0, how={"result": {"Result": "SATISFIABLE", "Time": {"Total": 1}, "Call": [{"Witnesses": [{"Value": ["x"]}]}]}})
want(r["loads"] == [] and r["label"] == "Solve", f"a result of before Reset is shown: {r['loads']}")
done()
""", "browser mode, Reset while a board is being solved", "the search goes on, and its result is drawn over the board after Reset")

bug("page-option-off", "C24",
    [("penpa-edit/app.js", """const value = config && config[k] !== undefined ? config[k] : v.default;""", """const value = (config && config[k]) || v.default;""")],
    """
p = Page()
p.do("type", value="numlin")
r = p.do("example", value="1", controls=["visit_all", "no_2x2"])
i = [k for k, x in enumerate(manager.list_solver_metadata()["numlin"]["examples"]) if x.get("config", {}).get("visit_all") is False][0]
r = p.do("example", value=str(i), controls=["visit_all", "no_2x2"])
want(r["controls"] == {"visit_all": False, "no_2x2": False}, f"the example comes with options {r['controls']}")
done()
""", "an example that switches off an option that is on by default", "the option stays on, the example is solved with other rules than shown with it")
