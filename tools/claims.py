S='stateless model checking of the real code: '
T=' Trusts the reference model in src/verif/check and the Go toolchain; inputs outside the enumerated alphabets are not covered.'
CLAIMS=[
('C01',M,S+'exhaustive enumeration of header field values, subsets, orders and lengths against a header model','Every header of the bounded space is parsed by the real code and compared field by field with the description it was built from.'+T),
('C02',M,S+'exhaustive enumeration of cells, precisions, products and shapes against a cell model','All 65536 cell values for every product and representative precision, all small shapes; complete within those bounds.'+T),
('C03',M,S+'exhaustive enumeration of byte cells, precisions, products and shapes against a cell model','All 256 cell values for every product and representative precision, all small shapes; complete within those bounds.'+T),
('C04',M,S+'exhaustive exploration of the run-length row automaton against a row model','Every (state, byte) transition of the row automaton for small widths and all rows up to a length bound over a representative alphabet.'+T),
('C05',M,S+'exhaustive enumeration of stated lengths, shapes and encodings against a geometry model','All stated lengths around the data size for all small shapes, and every local product.'+T),
('C06',M,S+'exhaustive enumeration of coordinates around every composite shape','All coordinates in a box around each shape plus integer extremes, for every way of obtaining a composite.'+T),
('C20',M,S+'exhaustive enumeration of local products and encodings against the catalogue','Every local product in every encoding; every cell compared.'+T),
('C07',M,S+'exhaustive enumeration of truncations, substitutions, numeric field texts and data sizes, judged by an independent strict reference parser','Every truncation point and every single-byte substitution of the reference files, all short numeric texts per field; the reference parser leaves inputs outside the documented format open.'+T),
('C08',F,'exhaustive enumeration of read schedules on the real code: every failure position, every chunking of short files, every error kind','Every cut position x error kind x split of the reference files, compared with delivery in one piece.'+T),
('C09',M,S+'exhaustive enumeration of archive histories (entry names, orders, counts, defects, damage positions) against an archive model','All entry permutations, defects and damage positions of small archives; archives come from an own bzip2 encoder.'+T),
('C10',M,S+'exhaustive enumeration of all composite dimensions against the table of known grids','All dimension pairs in the bounded range and every known grid.'+T),
('C11',M,S+'exhaustive enumeration of grid cells against an independent inverse polar-stereographic reference','Every cell of every spherical grid at the stated stride, every corner and border.'+T),
('C12',M,S+'exhaustive enumeration of grid cells against an independent inverse WGS84 polar-stereographic reference','Every cell at the stated stride of the DE1200 WGS84 grid, every corner and border.'+T),
('C13',M,S+'exhaustive enumeration of all decodable values x relations against an independent evaluation','Every value a cell can decode to, each relation, special floats.'+T),
('C14',M,S+'exhaustive enumeration of all product labels against the catalogue','Every two-character label.'+T),
('C16',M,S+'exhaustive enumeration of values x gradient definitions against an independent reference gradient','All decodable values, dense sweeps and special floats for the listed definitions; colours compared with a tolerance of the rounding step.'+T),
('C17',M,S+'exhaustive enumeration of image shapes, layers and cell contents','All small shapes and every cell position.'+T),
('C18',M,S+'the built command is run on exhaustively enumerated files, paths and previous outputs and every pixel is compared with a reference picture','All products, encodings, interval thresholds, cell values, grids and resolutions of the stated space; the picture is judged by an independent gradient, projection and overlay model.'+T),
('C19',F,'exhaustive enumeration of input damage and output faults against the built command: every truncation, substitution, unusable path and file-size limit','Every cut and the stated substitutions of small files, every product without a unit, every fault combination, every size limit around the image; file system compared before and after.'+T),
('C15',M,S+'exhaustive enumeration of operation histories up to depth 3 and of all interleavings with bounded preemptions under a cooperative scheduler in an instrumented build, each in a fresh process; every pair also under the race detector','All histories of length 3 over 45 operations, all pairs with one preemption at the first and last visit of every statement (thorough: at every visit, and two preemptions for all core pairs), and every operation with any goroutine delayed at any statement. Steps are statements; finer conflicts are left to the happens-before analysis of the race detector on every pair.'+T),
]
NA={}
