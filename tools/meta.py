#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'channelpack/pack.py'
U = 'channelpack/datautils.py'
T = 'channelpack/readtext.py'
D = 'channelpack/dbf.py'
X = 'channelpack/readxl.py'
R = X
XS = 'channelpack/xlrd/xlsx.py'
XI = 'channelpack/xlrd/__init__.py'
XM = 'channelpack/xlrd/formula.py'
XB = 'channelpack/xlrd/book.py'
XD = 'channelpack/xlrd/xldate.py'
XH = 'channelpack/xlrd/sheet.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech, note=note))


prop('C01', 'Parts are exactly the maximal true runs of the mask',
     'After any sequence of operations on a pack, its parts are enumerated '
     '0, 1, 2, ... one for each maximal run of true values in the mask, in '
     'order. Asking a channel for part i gives exactly the elements of run '
     'i, and asking for a part beyond the last raises IndexError.',
     ['inputs', 'histories'],
     'every mask content and every sequence of mask, data and duration '
     'operations',
     'the tests look at a few fixed masks of one or two histories; the '
     'cached partition must follow the mask over every history',
     [P, U], [('mask assignment renews the part slices', P + ':__setattr__'),
              ('run detection', U + ':slicelist'),
              ('part argument', P + ':__call__')],
     'histories of 2 (quick) or 3 (thorough) operations over 3-5 elements; '
     'masks of 70 elements with 6 free bits')
prop('C02', 'What a channel call returns for each mask mode, without effects',
     'Calling a pack for a channel gives all elements, only those where the '
     'mask is true ("filter"), or all with the others made nan (numbers) or '
     'None (other types) ("nan"), as the argument says or else the '
     'attribute. The part argument gives the elements of that part whatever '
     'the mode, "ignore" overrides the attribute, and no call alters data, '
     'data types, mask or settings.',
     ['inputs', 'configurations'],
     'every mask, element values and data type, each combination of '
     'attribute, argument and part',
     'the tests use a few arrays of float and text with a fixed mask; they '
     'do not cover all types and mask contents nor that reading is pure',
     [P, U], [('mode selection', P + ':__call__'),
              ('replacement', U + ':masked')],
     'up to 4 (quick) or 6 (thorough) elements, floats and ints symbolic, '
     'other dtypes with fixed elements')
prop('C03', 'startstop is a latch in which stop dominates',
     'The result is true from each start trigger up to but not including '
     'the next stop trigger; where both are true the result is false; it is '
     'open at the end. The result is a boolean array; unless told not to '
     'apply it, the mask becomes the old mask and the result, and otherwise '
     'the mask is left alone.',
     ['inputs', 'histories'],
     'every pair of trigger sequences, as any kind of sequence or iterator, '
     'and every mask before',
     'tests sample a dozen trigger pairs; the state machine has to be right '
     'for every interleaving of triggers',
     [P, U], [('the latch', U + ':startstop_bool'),
              ('mask update', P + ':startstop')],
     'triggers of up to 5 (quick) or 7 (thorough) elements')
prop('C04', 'duration keeps exactly the parts long (short) enough',
     'After requiring a minimum duration, a part of the mask remains, '
     'unchanged, if it has at least duration times samplerate elements, and '
     'is false otherwise; with a maximum duration it remains if it has at '
     'most that many. The resulting mask is returned and the parts follow.',
     ['inputs'], 'every mask, duration and sample rate with a whole product',
     'tests use single masks with one or two parts; boundary lengths, '
     'adjacent runs and runs at the ends need all masks',
     [P], [('part filter', P + ':duration')],
     'masks of up to 7 (quick) or 9 (thorough) elements, symbolic durations')
prop('C05', 'mindur persists over every mask update',
     'Once a minimum duration is set on the pack, no mask update of any '
     'kind, also new data, reset or append, leaves a part shorter than it, '
     'and parts that are long enough are not altered. It stays in force '
     'until it is changed or set to none.',
     ['histories'], 'every history of updates with the setting made first, '
     'in between or changed',
     'tests set it once and update once or twice',
     [P], [('enforcement at assignment', P + ':__setattr__')],
     'histories of 2 (quick) or 3 (thorough) updates of 11 kinds')
prop('C06', 'A fresh mask is all true with the length of the lowest key',
     'New packs, newly assigned data, reset and append give a boolean mask '
     'which is all true and has the length of the channel with the lowest '
     'key, whatever the data are, and one part (none if empty).',
     ['inputs', 'histories'],
     'every set and order of keys, every element value and type, every mask '
     'before',
     'tests use ordinary numbers; nan, None, NaT and unordered keys are not '
     'covered',
     [P], [('reset', P + ':mask_reset'), ('data assignment',
                                          P + ':__setattr__')],
     'up to 3 keys, 3 elements each')
prop('C07', 'Appending concatenates, all or nothing, and never couples packs',
     'Appending a pack appends its data channel by channel and its file '
     'names in order; an empty pack takes over data and names. If keys or '
     'names do not align, ValueError is raised and nothing is changed; in '
     'every case the other pack is unaltered, and later changes of either '
     'pack do not show in the other.',
     ['inputs', 'histories'], 'every pair of packs and chain of appends',
     'tests append a few fixed packs and do not look at the state after '
     'failures or at later changes',
     [P], [('append', P + ':append_pack')],
     'all pairs of 5 key sets, chains of up to 3 appends')
prop('C08', 'Channel lookup: key, then name, then fallback name',
     'A channel is found by its integer key, by its name, or by its '
     'fallback name (prefix and key) in that order of precedence, and by '
     'nothing else: any other integer or text raises KeyError. The name method '
     'gives the name, its first word on request, or the fallback name of '
     'the same channel.',
     ['inputs', 'configurations'],
     'every set of keys, names, prefix and looked-up string or number',
     'tests look up a few well-formed names; near matches (longer digits, '
     'prefixes with special characters, names that look like fallback '
     'names) need arbitrary strings',
     [P], [('lookup', P + ':_datakey'), ('name', P + ':name')],
     'symbolic strings of up to 4 characters, names of up to 3')
prop('C09', 'Records agree with channel calls',
     'The records of a pack are one per element of the channel calls with '
     'the same mode or part, with one field per channel in key order '
     'holding that channel\'s element, named by name or fallback name. '
     'Names that cannot be field names raise ValueError, and making records '
     'changes nothing.',
     ['inputs', 'configurations'],
     'every data, mask, mode, part and naming of channels',
     'tests check a small pack with ordinary names',
     [P], [('records', P + ':records')],
     '2-3 channels, 3 elements')
prop('C10', 'Data is always flat arrays under integer keys',
     'However data or names are put in a pack (construction, assignment, '
     'item assignment, update, setdefault, union; dict, pairs or iterator) '
     'every item given is stored under its integer key, data as '
     'one-dimensional arrays with the values given. A key that is not an '
     'integer raises TypeError and a value that is not flat raises an '
     'error, and then nothing has changed.',
     ['inputs', 'histories'], 'every route, key and value',
     'tests try a few bad keys by two routes',
     [P], [('checked dicts', P + ':IntKeyDict'), ('arrays', P + ':NpDict')],
     'up to 2 items, 2 operations, 13 routes')
prop('C11', 'Guarded attributes reject bad values and stay as they were',
     'Setting the mode attribute to anything but its valid values, or any '
     'guarded attribute to a value of a wrong kind, or deleting one, raises '
     'an error and leaves the whole pack as it was; valid values are '
     'stored. The file name is always the first of the pack\'s own list of '
     'file names.',
     ['inputs', 'histories'], 'every attribute and value, in sequence',
     'tests try one or two bad values and do not compare the state after',
     [P], [('attribute guard', P + ':__setattr__'),
           ('deletion guard', P + ':__delattr__')],
     'symbolic strings of up to 6 characters, 9 kinds of other values')
prop('C12', 'Delimited text is read field by field, exactly',
     'Every row and field of a delimited table arrives in the pack under '
     'its column number, once and in order: fields of columns that are '
     'numeric in the first row as the float they denote, with decimal point '
     'or comma, others as their text. Line endings, a missing final '
     'newline, and reading a text stream, bytes stream or file make no '
     'difference, and a converter given decides the values of its column.',
     ['inputs', 'configurations'], 'every table content, delimiter, decimal '
     'sign, line ending and kind of source',
     'tests read a handful of sample files',
     [T], [('field functions', T + ':linetuples'),
           ('reader', T + ':textpack')],
     'tables of up to 3x3 fields with all characters symbolic')
prop('C13', 'Selected columns arrive under their own numbers and names',
     'Selecting columns (as a number or any sequence of numbers, in any '
     'order, repeated or not) or giving names for some columns gives '
     'exactly those columns, each with its own data under its own number, '
     'and names taken from the file or given belong to the right column. '
     'Given names take precedence over a selection.',
     ['inputs', 'configurations'], 'every selection, order and table',
     'tests select ascending columns of fixed files',
     [T], [('selection', T + ':textpack'), ('field selection',
                                            T + ':linetuples')],
     '4 columns, all selections of up to 3 (quick) or 4 (thorough) entries')
prop('C14', 'Data starts right after the skipped lines',
     'The given number of lines is skipped whatever they contain, all lines '
     'after them are data, and with a names line the last of the skipped '
     'lines gives the stripped names by column. If names are given instead, '
     'all skipped lines are ignored.',
     ['inputs', 'configurations'], 'every content of the skipped lines',
     'tests skip ordinary header lines of fixed files',
     [T], [('skipping', T + ':textpack'), ('names line',
                                           T + ':linetuples')],
     '0..3 skipped lines of arbitrary characters')
prop('C15', 'Missing values stay in place and blank lines are no rows',
     'A missing field gives nan in a numeric column and an empty text in '
     'others, and never shifts other fields or rows. Blank lines among or '
     'after the rows add nothing and lose nothing.',
     ['inputs'], 'every pattern of missing fields and blank lines',
     'tests have a few missing fields in one file',
     [T], [('nan for missing', T + ':linetuples'),
           ('blank lines', T + ':linetuples')],
     '3 (quick) or 4 (thorough) rows x 3 columns, any fields missing')
prop('C16', 'Bytes, text and files with the same content read the same',
     'The same table given as text, as bytes with an encoding, or as a file '
     'gives equal packs or fails alike; bytes without an encoding give the '
     'same numbers and the text as bytes.',
     ['inputs', 'configurations'], 'every text, well formed or not, '
     'delimiter, options and encoding',
     'tests compare two or three sample files',
     [T], [('bytes handling', T + ':linetuples'),
           ('sniffing', T + ':contextopen')],
     'free texts of up to 4 (quick) or 6 (thorough) arbitrary characters, '
     'tables with non-ASCII letters in 4 encodings')
prop('C17', 'Debug mode changes nothing but the output',
     'Reading text in debug mode gives the same pack as without, and a '
     'reading error is raised as the same kind of error.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every input, good or bad, and each row at which a conversion fails',
     'tests run debug mode on one file and one failure',
     [T], [('debug loop', T + ':textpack')],
     'arbitrary fields of up to 2 characters, 3 lines; failures at any row')
prop('C18', 'Lazy reading finds the numeric table and its names',
     'For numeric text with a header, lazy reading finds the delimiter, the '
     'decimal sign, the first row of data and the names, so that the pack '
     'has exactly the table and its names, however many lines are parsed as '
     'long as they reach data. Keyword arguments given override what is '
     'derived, and text without numbers raises ValueError.',
     ['inputs', 'configurations'], 'every table of numbers, delimiter, '
     'decimal sign, header, and overriding argument',
     'tests read five sample files',
     [T], [('derivation', T + ':preparse'), ('override',
                                             T + ':lazy_textpack')],
     'up to 3x3 numbers of 10 shapes with symbolic digits')
prop('C19', 'Readers close only their own files and respect the position',
     'A reader given a file name closes the file when done, also when '
     'reading fails; a stream given by the caller is never closed and is '
     'read from its current position with nothing lost; lazy '
     'reading that finds no numbers leaves it there. Errors are not '
     'swallowed, and the pack has the name of the file or stream.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every reader, source, position and failure point',
     'tests do not look at streams after failures or at non-zero positions',
     [T, D, R, XI, XB], [('context manager', T + ':contextopen'),
                          ('workbooks', XI + ':open_workbook'),
                          ('xls files', XB + ':Book.release_resources')],
     'failures at each row, positions 0..4; damaged, cut and missing parts')
prop('C20', 'DBF tables are read exactly as stored',
     'Every record not marked deleted arrives once, in order, under the '
     'field numbers and names of the file: numbers as the value of their '
     'digits (integers without decimals), dates as dates, logicals as T, F '
     'or ?, text as it is, and blank numbers and dates as nan and None.',
     ['inputs'], 'every table content and pattern of deleted records',
     'tests read three sample files',
     [D], [('record decoding', D + ':dbfreader')],
     'up to 3 (quick) or 5 (thorough) records, fields of 9 kinds with '
     'symbolic content')
prop('C21', 'Reading some DBF fields is a projection of reading all',
     'Reading a dbf file with a list of names gives exactly the named '
     'fields that exist, with the same numbers, names, records and values '
     'as reading all of it, whatever the order of the list and the records '
     'marked as deleted.',
     ['inputs', 'configurations'], 'every table, subset and order of names',
     'tests pick a few names of one file without deleted records',
     [D], [('selected fields', D + ':dbfrecords'), ('names',
                                                    D + ':dbfpack')],
     'all subsets of up to 4 (quick) or 5 (thorough) fields, 3 records')

prop('C22', 'Spreadsheet notation addresses exactly one cell or column',
     'Column letters and 0-based column numbers correspond one to one (A is '
     '0, Z 25, AA 26 and so on) in any letter case, a cell address is the '
     'row and column it writes, a usecols string is exactly the set of '
     'columns it spells, sorted, and what is not an address is refused.',
     ['inputs'], 'every address of the notation',
     'tests try a few letters; a slip in the weights or the bounds shows '
     'for other columns only',
     [R, XS, XB], [('letters to number', R + ':letter2num'),
                   ('address', R + ':cellreference'),
                   ('usecols', R + ':normalize_usecols'),
                   ('xlsx address', XS + ':cell_name_to_rowx_colx'),
                   ('number to letters', XB + ':colname')],
     'up to 3 letters and 3 digits')
prop('C25', 'Spreadsheet serial numbers are the dates they stand for',
     'In both date systems (1900 with its fictive leap day, 1904) each '
     'serial day number is converted to its date of the Gregorian calendar '
     'and back without loss, the fraction is the time of day to the nearest '
     'second or millisecond and carries over at midnight, and numbers that '
     'are no dates are refused.',
     ['inputs'], 'every serial number and date to the end of year 9999',
     'tests convert a few dates; century and leap rules, carry and the two '
     'date systems leave millions of days',
     [XD], [('to datetime', XD + ':xldate_as_datetime'),
            ('to tuple', XD + ':xldate_as_tuple'),
            ('from date', XD + ':xldate_from_date_tuple')],
     'every day of the 20th-23rd and 100th centuries (thorough: 1900-9999), '
     'every millisecond of selected days')

prop('C23', 'A sheet column keeps its values in an array of fitting type',
     'Each column read from a sheet becomes one channel of its values in '
     'order: numbers as a float array, dates as datetimes of the workbook '
     'date system, booleans as True and False, texts as they are, missing '
     'cells as nan among numbers, empty text among texts and None '
     'elsewhere, and a mix is kept value by value, never converted, shifted '
     'or lost.',
     ['inputs'], 'every mix of cell types and values down a column',
     'tests read a handful of homogeneous columns; which conversion is '
     'taken depends on the types of all the cells together',
     [R], [('column arrays', R + ':sheetpack'),
           ('dates', R + ':sheet_columns')],
     'up to 4 rows (thorough 5) and 3 columns, every mix of the cell types, '
     'symbolic values')
prop('C24', 'Exactly the requested cells of the requested sheet are read',
     'The data read from a workbook are the rows and columns from startcell '
     'to stopcell, both included, of the sheet asked for by number or name; '
     'usecols picks exactly its columns, the header row (the one given, or '
     'the top row of the range) names the channels, with fall back names '
     'when there is none, and the defaults are the used part of the sheet.',
     ['inputs'], 'every range, header, usecols and sheet choice',
     'tests try some ranges; off-by-one errors at the edges and the '
     'interplay of header, range and usecols need all combinations',
     [R], [('range', R + ':sheetpack'), ('header', R + ':sheetpack')],
     'sheets of up to 4 x 4 cells, every start and stop inside them')
prop('C26', 'A sheet is the rectangle of the cells put in it',
     'A sheet shows every cell at the row and column it was put to, '
     'whatever the order, padded with empty cells to a rectangle that just '
     'holds them; rows, columns and slices (negative indices too) give those '
     'same cells.',
     ['inputs'], 'every set and order of cells, every slice',
     'tests look at complete, ordered files; gaps and disorder take other '
     'branches',
     [XH], [('put', XH + ':Sheet.put_cell_unragged'),
            ('ragged put', XH + ':Sheet.put_cell_ragged'),
            ('padding', XH + ':Sheet.tidy_dimensions'),
            ('slices', XH + ':Sheet.col_slice')],
     'up to 4 cells (thorough 5) in a 4 x 4 area')
prop('C27', 'Every cell of an xlsx file arrives as its value and type',
     'Reading an xlsx workbook gives each cell of its XML at its address '
     '(also when addresses are left out) with its type and value: numbers, '
     'shared and inline texts with rich text runs and escapes, booleans, '
     'errors, formula results, and dates by the number format of the cell; '
     'the date system, sheet names and sheet order are those of the '
     'workbook.',
     ['inputs'], 'every content within the bounds',
     'tests read a few files made by one program; other writers order, omit '
     'and nest parts differently',
     [XS], [('cells', XS + ':X12Sheet.do_row'),
            ('shared strings', XS + ':X12SST'),
            ('styles', XS + ':X12Styles'), ('workbook', XS + ':X12Book')],
     'up to 3 cells, 3 shared strings, texts of 3 characters')
prop('C28', 'Every cell record of an xls file arrives as its value and type',
     'Reading an xls workbook stream gives each cell of its records at its '
     'row and column with its type and value: doubles, packed numbers '
     '(integer or float, in hundredths or not) alone or in a row, texts '
     'inline, shared, compressed or wide, booleans, errors and formula '
     'results, dates by the number format; other records change nothing.',
     ['inputs'], 'every record content within the bounds',
     'tests read a few files; packed number forms, wide texts and formula '
     'results appear in other files',
     [XH, XB], [('records', XH + ':Sheet.read'),
                ('packed numbers', XH + ':unpack_RK'),
                ('formula texts', XH + ':Sheet.string_record_contents'),
                ('formats', XB + ':Book')],
     'up to 3 records, symbolic positions, mantissas and characters')

prop('C29', 'Shared texts of an xls file are whole however they are cut',
     'The shared texts of an xls file are read complete and in order '
     'whatever their width, formatting runs and phonetic data, and wherever '
     'the format allows the table to be cut into records; so is a formula '
     'text cut in two.',
     ['inputs'], 'every table of shared texts and every way to cut it',
     'cuts occur once in 8 kB in real files, at places no test file chose',
     [XB, XH], [('shared texts', XB + ':unpack_SST_table'),
                ('collecting records', XB + ':Book.handle_sst'),
                ('formula texts', XH + ':Sheet.string_record_contents')],
     '3 texts of up to 4 code units, up to 3 cuts anywhere')

XC = 'channelpack/xlrd/compdoc.py'
prop('C30', 'The workbook is read whole from its container file',
     'From the compound document of an xls file the workbook stream is read '
     'whole and in order wherever its sectors, the allocation tables and '
     'the directory lie, in normal or short sectors, and whatever the shape '
     'of the directory; a sector chain that loops or leaves the file is '
     'refused, not followed for ever or read as data.',
     ['inputs'], 'every placing of the parts and every damaged link',
     'test files come from one writer and lie in order',
     [XC, XB], [('chains', XC + ':CompDoc._locate_stream'),
                ('short sectors', XC + ':CompDoc._get_stream'),
                ('tables', XC + ':CompDoc'),
                ('directory', XC + ':CompDoc._dir_search')],
     'up to 4 sectors (thorough 5) in every order, 2 tables, 5 entries')

XF = 'channelpack/xlrd/formatting.py'
prop('C31', 'A number format makes a date by its date letters alone',
     'A cell with a custom number format is a date if the format has date '
     'letters (y m d h s, either case) outside quoted, escaped and bracketed '
     'text and no digit places, and a number if it has none; what is quoted, '
     'escaped or bracketed never matters, in xls and xlsx alike.',
     ['inputs'], 'every format string within the bounds',
     'test files hold a few formats; text that happens to contain date '
     'letters, escapes and locale brackets combine freely',
     [XF, XS], [('classification', XF + ':is_date_format_string'),
                ('xls formats', XF + ':handle_format'),
                ('xlsx formats', XS + ':X12Styles')],
     'strings of 3 (thorough 4) characters, 3 (thorough 4) pieces')

prop('C32', 'Worksheets of Excel 2, 3 and 4 are read like newer ones',
     'A worksheet file of Excel 2, 3 or 4, and each sheet of an Excel 4 '
     'workbook, gives every cell at its row and column with its type and '
     'value: doubles, integers, packed numbers, texts in the code page of '
     'the file, booleans, errors and formula results; a number is a date '
     'by the number format of its cell, counted in the date system of the '
     'file.',
     ['inputs'], 'every record content within the bounds',
     'tests read files of newer versions; the old records have other '
     'layouts, and formats are found in other ways',
     [XH, XB, XF], [('records', XH + ':Sheet.read'),
                    ('cell attributes', XH + ':Sheet.fixed_BIFF2_xfindex'),
                    ('formats', XF + ':handle_format'),
                    ('cell formats', XF + ':handle_xf'),
                    ('versions', XB + ':Book.getbof'),
                    ('workbooks', XB + ':Book.handle_sheethdr')],
     'up to 3 records, symbolic positions, mantissas and characters')

prop('C33', 'How a workbook is opened does not change its cells',
     'The cells of a workbook are the same whether it is given by name or as '
     'bytes, with a memory map or not, all at once or sheet by sheet on '
     'demand, with rows ragged or filled, with formatting (which adds the '
     'blank cells and the format of each cell) or not, with messages or '
     'not; an encoding given by the caller stands in for that of an old '
     'file.',
     ['inputs', 'configurations', 'histories'],
     'every combination of options and order of loading within the bounds',
     'tests open files in the default way',
     [XI, XB, XH, XS], [('options', XI + ':open_workbook'),
                        ('loading', XB + ':Book.get_sheet'),
                        ('cells', XH + ':Sheet.put_cell_ragged'),
                        ('filling', XH + ':Sheet.tidy_dimensions'),
                        ('encoding', XB + ':Book.derive_encoding')],
     'up to 3 cells at symbolic places, 2 sheets')

prop('C34', 'Notes, links and merged ranges stay with their cells',
     'Each note, link, merged range and label range of a sheet is given for '
     'the cells it was stored for, with its whole text, author, target, mark '
     'and tip, however the file divides the text between records or runs '
     'and wherever an xlsx file keeps its notes; they change no cell, and '
     'the sheet is as large as the merged ranges need.',
     ['inputs'], 'every record content within the bounds',
     'test files have few such records; the text may be cut anywhere, and '
     'the optional parts combine freely',
     [XH, XS], [('xls notes', XH + ':Sheet.handle_note'),
                ('xls note texts', XH + ':Sheet.handle_txo'),
                ('xls links', XH + ':Sheet.handle_hlink'),
                ('xls ranges', XH + ':Sheet.read'),
                ('xlsx notes', XS + ':X12Sheet.process_comments_stream'),
                ('xlsx merged cells', XS + ':X12Sheet.do_merge_cell')],
     'up to 2 notes, links or ranges, texts of up to 3 characters in 3 pieces')

prop('C35', 'Defined names stand for their cells, and never block reading',
     'A defined name of an xls workbook gives the cells, area or value its '
     'formula stands for, in the sheet it names and known where it is '
     'defined, by its name in any case; absolute and relative references, '
     'operators, lists, ranges, IF, CHOOSE and other names included; what '
     'cannot be evaluated has no result, and no name keeps the cells of the '
     'workbook from being read.',
     ['inputs'], 'every formula within the bounds',
     'test files have a handful of names; operands, operators and sheets '
     'combine freely',
     [XB, XM], [('records', XB + ':Book.handle_name'),
                ('scopes', XB + ':Book.names_epilogue'),
                ('evaluation', XM + ':evaluate_name_formula'),
                ('sheets', XM + ':get_externsheet_local_range'),
                ('cells', XB + ':Name.area2d')],
     'up to 3 names, 3 operands, 3 sheets')

prop('C36', 'Fonts, formats, rows and columns of an xls file are as stored',
     'When formatting is asked for, each cell has the format of its own '
     'record, else that of its row, else that of its column, else the '
     'default; the fields of that format (font, number format, alignment, '
     'borders, background, protection, parent), the fonts, styles and '
     'colours, the heights of rows, the widths of columns and their hidden '
     'marks and outline levels are those stored, in all file versions; '
     'asking changes no cell.',
     ['inputs'], 'every record content within the bounds',
     'the fields are packed in bits that test files hardly vary, and each '
     'file version packs them differently',
     [XF, XH, XB], [('format records', XF + ':handle_xf'),
                    ('fonts', XF + ':handle_font'),
                    ('styles', XF + ':handle_style'),
                    ('colours', XF + ':handle_palette'),
                    ('rows and columns', XH + ':Sheet.read'),
                    ('default format', XH + ':Sheet.cell_xf_index')],
     'one record of each kind, every bit pattern of its fields; 3 x 3 cells')

NOT_APPLICABLE = [
]

TECH = ('symbolic execution of the Python source (instrumented at import) '
        'with z3: every feasible path within the bounds is enumerated, '
        'claims are discharged as unsat queries, models replayed on the '
        'real code')
NOTE = ('Bounded: %s. Within the bounds the solver decides every value; '
        'trusted: the models of builtins, numpy, re, struct and io in symx/ '
        '(each path\'s model is replayed on the unmodified code and must '
        'agree), z3, and floats as exact decimals.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[
                    dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    na = {x['property'] for x in NOT_APPLICABLE}
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python check.py --selftest',
             checks=[dict(property=p['id'],
                          quick_cmd='/opt/venv/bin/python check.py %s '
                          '--tier quick' % p['id'],
                          thorough_cmd='/opt/venv/bin/python check.py %s '
                          '--tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'],
                          technique=TECH, level='model_checking',
                          level_note=NOTE % p['note'])
                     for p in PROPS if p['id'] not in na],
             not_applicable=NOT_APPLICABLE,
             notes='No hooks: the code under test is instrumented in memory '
             'by the checks. Repairs are the "fix:" commits listed in '
             'known-findings.jsonl.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
