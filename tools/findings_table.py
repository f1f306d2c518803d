FINDINGS = []
PROPS = {
 'read diagonal borders of a penpa link at the right cell, and write them with ordered end points': 'C01 C02',
 'aquapelago clue cells are shaded': 'C03',
 'heyawake, heyablock and hinge no longer take cleared (x) border marks for borders': 'C03',
 'mannequin knows the distance between any two cells of an area': 'C03',
 'nuribou measures a strip along its own cells only': 'C03',
 'numberlink no longer accepts loops that touch no clue': 'C04',
 'hotaru beam connects all fireflies even when no firefly has a number': 'C04',
 'hotaru beam counts no bends for a beam that reaches the next firefly at once': 'C04',
 'all-or-nothing accepts a loop that stays inside its only visited room': 'C04',
 'a myopia arrow needs a loop edge to point at': 'C04',
 'nagareru loop accepts winds that blow off the board at once': 'C04',
 'tapa and tapa-like loop programs no longer grow with every request': 'C11',
 'country road no longer forces the loop along a drawn outer border': 'C04',
 'tri-place counts upright blocks in a one-cell row run': 'C05',
 'numbers given outside the allowed range make a number puzzle unsolvable': 'C06',
 'sudoku diagonals on boards other than 9x9': 'C06',
 'ripple rejects given numbers out of range on boards with empty cells too': 'C06',
 'battleship accepts a middle part on the border of the board': 'C07',
 'battleship accepts fleets drawn in the other styles': 'C07',
 'binairo halves every row and column of a board that is not square': 'C07',
 'akari rejects a bulb given on a wall': 'C07',
 'nagareru loop returns a loop without direction clues once': 'C08',
 'answers that look the same are returned once': 'C08',
 'count_shape counts the given shape inside areas': 'C16',
 'unique_num looks along the row for rows and along the column for columns': 'C17',
 'gokigen honours slants the user has drawn': 'C09',
 'haisu and nagareru loop honour lines and x marks the user has drawn': 'C09',
 'shakashaka honours triangles the user has drawn': 'C09',
 'magnets honours plus and minus signs the user has drawn': 'C09',
 'juosan honours bars the user has drawn and does not take them for clues': 'C09',
 'a room with two clues is rejected, not solved with one of them at random': 'C23',
 'hashi honours the x marks the user has drawn': 'C09',
 'star, mine and region size options are accepted as numbers too, like the advertised defaults': 'C20',
 'a rejected board with characters that cannot be encoded gets status 400 with an explanation': 'C12',
 'numbers off the middle of a cell are rejected by the room puzzles, not ignored': 'C13',
 'balance, factors, nanro, onsen and usoone reject clues on sides and corners, not ignore them': 'C13',
 'kazunori and minarism reject clues on corners, on the outer border or of a wrong kind, not ignore them': 'C13',
 'coral and nonogram reject clues that are no numbers or not in the middle of a cell': 'C13',
 'firefly rejects numbers that are not on a corner, not ignore them': 'C13',
 "railpool rejects clues that are not set as 'Tapa' numbers": 'C13',
 'easyasabc rejects an unknown letter with an explanation': 'C13',
 'sudoku rejects an unsupported size with an explanation': 'C13',
 'binairo and yinyang reject other symbols, not take them for black circles': 'C13',
 'nagare rejects unknown symbols with an explanation': 'C13',
 'juosan rejects text that is neither a room clue nor a bar': 'C13',
 'kakuro and triplace reject clues in the wrong corner of a cell, not ignore them': 'C13',
 'nuriuzu rejects circles on corners and on the border, not ignore them': 'C13',
 'myopia and pentopia reject a clue without arrows with an explanation': 'C13',
 'yajitatami rejects an unknown arrow direction, not ignore it': 'C13',
 'ncells rejects region size 0 with an explanation': 'C13',
 'nagare rejects arrows of a wrong kind, not ignore them': 'C13',
 'voxas rejects circles on the outer border, not ignore them': 'C13',
 'araf rejects a clue that is no number with an explanation, wherever it is': 'C13',
 'bosanowa and heyawake reject options that are no numbers with an explanation': 'C13',
 'hanare marks its example that is not tested like the other puzzle types': 'C20',
 "solver files with 'solver' in their name are served under that name": 'C20',
 'reset of an example given as a puzz.link address brings the example back': 'C24',
 'importing a penpa link leaves the letters of a puzzle name in its data alone': 'C24',
 'a response that comes after a reset is not shown on the board': 'C24',
 'a search cut off because the system clock was set is not taken for a finished one': 'C14',
 'keep the page of the server whole and in its mode while a deployment is built or interrupted': 'C25',
}
