#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here, once)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = [observe]
    P.append(d)

YW='src/pywriter/yw/yw7_file.py'; FE='src/pywriter/file/file_export.py'; ODF='src/pywriter/odf/odf_file.py'
OW='src/pywriter/odt_w/odt_writer.py'; SW='src/pywriter/ods_w/ods_writer.py'
CUI='src/pywriter/converter/yw_cnv_ui.py'; CFF='src/pywriter/converter/yw_cnv_ff.py'

p('P01','Saving and reopening a project keeps every attribute of every element',
  'After a project is saved and read again, every project, chapter, scene, character, location, item and project-note attribute that was set (titles, texts, notes, tags, ratings, plot fields, dates, durations, relations, order of chapters/scenes/characters/locations/items, custom fields, language settings) has the value it had before saving. This holds both for a new file and when an existing project file is updated, and no attribute takes over the value of another one. Scene starts that yWriter stored without leading zeros or seconds are read as the same time. (Line breaks at the very end of a text and characters that XML cannot represent are excepted.)',
  ['inputs','programs'],'all attribute values of all element kinds, for new and for existing project files, one or several elements of each kind',
  'The reference project samples a handful of attributes with one value each; a tag misspelt on one side only, or an attribute that is lost only for a new element, does not show up.',
  [YW],[('project file writer',f'{YW}: Yw7File.write, _build_element_tree'),('project file reader',f'{YW}: Yw7File.read, _read_*')],
  observe='attributes of the novel model after write() followed by read()')
p('P02','Chapter and scene types, flags and modes survive saving for every code',
  'For every chapter type (normal, notes, todo, unused) and level, every scene type, and every combination of the on/off flags (chapter title/break suppression, trash bin, append to previous, reaction scene, subplot, do-not-export, major character), status and scene mode, saving and reopening the project yields the same codes. This also holds when a stored element changes from any type, level or flag value to any other one.',
  ['inputs','histories'],'all type, level, status, mode and flag codes, and all transitions between two codes in an existing file',
  'The encoding uses several cooperating tags per code and the transitions are 4x4 and more; the tests only contain the codes of one sample project and no transition.',
  [YW],[('type encoding tables',f'{YW}: build_scene_subtree, build_chapter_subtree'),('type decoding',f'{YW}: _read_scenes, _read_chapters')])
p('P03','A saved project file is well-formed XML whatever the texts contain',
  'Whatever characters that XML can represent the novel texts contain - ampersands, angle brackets, quotes, the CDATA end mark, entity-like text - the saved project file is well-formed XML and parses to exactly these texts. Texts in CDATA sections are stored literally, texts outside are escaped exactly once.',
  ['inputs'],'all text attributes of all elements, with arbitrary character content',
  'The test project contains almost no markup characters; whether a tag is wrapped in CDATA and whether its entities are decoded are two separate decisions that must agree for each tag.',
  [YW],[('postprocessing',f'{YW}: Yw7File._postprocess_xml_file, _CDATA_TAGS')])
p('P04','Unset attributes keep the stored value, cleared ones are cleared',
  'When an existing project is saved, a text attribute of the project, a chapter or a scene that is not set leaves the stored element untouched, and an attribute of any element set to the empty text clears the stored value, so it is empty after reopening. Scenes with cleared date and time lose all their stored date information; date, time and day can also be cleared one by one, the others being kept.',
  ['inputs','histories'],'all optional text attributes of scenes, chapters and project, in the states unset/empty/set, over existing files that do or do not hold a value',
  'The tests never clear an attribute and never save a project object with unset attributes over a file holding values.',
  [YW],[('attribute update',f'{YW}: build_scene_subtree, build_chapter_subtree, build_project_subtree')])
p('P05','Saving preserves project data that the application does not know',
  'When an existing project is read and saved, all XML elements and texts below the project, chapter and scene nodes, the project variables and the sections of the file that the application does not handle are retained unchanged. Only the documented derived or obsolete entries (word and letter counts, RTF file name, chapter back reference, sort order, save information) are removed.',
  ['inputs','histories'],'arbitrary foreign elements at project, scene, chapter, field-list and file level',
  'Foreign elements in the sample project cover few positions, and the reference files were produced by the program itself.',
  [YW],[('tree update',f'{YW}: Yw7File._build_element_tree')])
p('P06','A project locked by yWriter is neither read nor written',
  'If a lock file exists beside the project file, reading and writing the project raise the application error, and nothing is changed: no file is touched or renamed and no novel data is modified or replaced.',
  ['inputs','histories'],'reading and writing of projects with a lock file, through the project file object and through the conversions',
  'No test places a lock file.',
  [YW],[('lock check',f'{YW}: Yw7File.is_locked, read, write')])
p('P07','An existing target file is never lost: backup and restore at every failure',
  'At every point during the writing of a project or export file, either the file itself or its backup beside it holds the complete previous or the complete new content. If any step of the writing fails, the previous file is back at its place with its previous content and the application error is raised; after success, the backup holds the previous content.',
  ['crash_points','fault_sequences'],'every file operation of project, text and OpenDocument writing, crashing after it or failing in it',
  'Needs failing or interrupted file operations at chosen points; the tests only write successfully.',
  [YW,FE,ODF],[('project backup',f'{YW}: Yw7File._write_element_tree, write'),('export backup',f'{FE}: FileExport.write'),('package backup',f'{ODF}: OdfFile.write')])
p('P08','Reading a project never leaves dangling references',
  'After any project file was read, every scene ID in a chapter, and every character, location and item ID in a scene refers to an existing element of its kind, in the order given by the file, even if the file refers to unknown elements. Reading the same project again into the same novel does not duplicate order lists; if the file has changed meanwhile, the scenes, order lists and references are those of the changed file.',
  ['inputs','histories'],'project files with valid and invalid references; repeated reading',
  'The sample project has only valid references and is read once.',
  [YW],[('reference filter',f'{YW}: _read_scenes, _read_chapters')])
p('P09','Scenes of non-normal chapters inherit the chapter type on reading',
  'After reading a project, every scene that belongs to a chapter of type notes, todo or unused has this type, and scenes of normal chapters keep their own type.',
  ['inputs'],'all combinations of chapter type and scene type',
  'There are 16 combinations, of which the sample project contains a few.',
  [YW],[('type inheritance',f'{YW}: Yw7File.adjust_scene_types')])
p('P10','Every exported document is well-formed for every novel',
  'Every part of every exported text document and spreadsheet is well-formed XML, whatever chapters and scenes of any type, level and flag, and whatever markup and texts the novel contains, including missing titles, unset attributes and markup running over several paragraphs; and no text is outside of the paragraphs and headings.',
  ['inputs','configurations'],'all export document types x chapter/scene types, levels and flags x scene texts with bold, italics, language, comment and paragraph markup x present/absent attributes',
  'Templates for todo/notes/unused parts and rarely used attributes are not exercised together; an unbalanced template or unescaped text shows only for the type or character concerned.',
  [OW,SW,FE,ODF],[('templates','src/pywriter/odt_w/*.py, src/pywriter/ods_w/*.py'),('markup conversion',f'{OW}: OdtWriter._convert_from_yw')])
p('P11','Exported text is the novel text: escaped exactly once, nothing lost',
  'Every title, text, tag, name, note or other attribute value that goes into an exported document appears there with all XML special characters escaped exactly once, so that reading the document back yields the original characters. No value is inserted unescaped, escaped twice, or truncated.',
  ['inputs'],'all novel attributes used by any export template, with arbitrary characters; all export document types and the document metadata',
  'The test data contains ampersands in very few attributes; each attribute x document type is a separate data flow.',
  [FE,OW,SW,ODF],[('mapping functions',f'{FE}: FileExport._get_*Mapping'),('conversion',f'{OW}, {SW}: _convert_from_yw'),('metadata',f'{ODF}: OdfFile._set_up')])
p('P12','Exports contain exactly the scenes and chapters meant for them, in order',
  'A story export (manuscript for export, formatted manuscript, scene/chapter/part descriptions, synopsis, scene list) contains each normal scene or chapter that is meant for it exactly once and in novel order, and contains no text of notes, todo or unused scenes and of scenes or chapters marked as not to be exported, and of scenes made of HTML or TeX code for another program; the notes and todo exports contain the notes and todo scenes instead. Chapter and scene numbers count exactly the normal exported ones, consecutively. Part titles are first level headings and chapter titles second level headings; in manuscripts and scene descriptions, scenes are separated by dividers except the first of a chapter and those attached to the previous scene, which continue it. Every template-based export processes each element with the template of its type, and leaves out those rejected by a filter.',
  ['inputs','configurations'],'all export document types x chapter types x scene types x export flags',
  'The template selection is a decision table over chapter type, level, scene type and two flags per document type; the tests sample one novel.',
  [FE],[('selection',f'{FE}: FileExport._get_chapters, _get_scenes'),('templates','src/pywriter/odt_w/*.py, src/pywriter/ods_w/*.py')])
p('P13','Exporting does not change the novel',
  'Generating any export document leaves every attribute of the novel, its chapters, scenes and world elements unchanged, except for the document locale and the list of languages being completed.',
  ['inputs','configurations'],'all export document types, all novels',
  'Tests compare the document only, never the novel after exporting.',
  [FE,ODF],[('export',f'{FE}: FileExport.write and overrides')])
p('P14','An exported document package is complete and leaves no traces',
  'Every successfully written document package contains all its parts (mimetype, manifest, settings, styles, metadata, content, for text documents also the RDF manifest), each one listed in the manifest with the media type of the document, well-formed and without unfilled placeholders. Whether or not writing succeeds, the working directory is the same as before, the path of the document object is unchanged, and after success no temporary directory is left behind.',
  ['configurations','fault_sequences'],'all document types; failure at any step',
  'Tests unpack content.xml and styles only; failure paths are not exercised.',
  [ODF],[('packing',f'{ODF}: OdfFile.write, _set_up, _tear_down')])
p('P15','An exported document read back yields the same novel data',
  'For each document type that can be both exported and imported (proof, manuscript, notes, todo, scene/chapter/part descriptions, character/location/item sheets), importing the unchanged document restores, for every section, the exported text - paragraphs, bold, italics, language markup, quotations, list bullets, special characters - to the element with the same ID, and changes no other attribute and no other element. Comments carrying the scene title between tildes update only the title.',
  ['inputs','configurations'],'all round-trip document types x elements x text markup',
  'Round-trip tests exist for a few types, with one short sample text each.',
  ['src/pywriter/odt_r/odt_reader.py','src/pywriter/odt_r/odt_parser.py',OW],[('section markers','src/pywriter/odt_w/*.py templates'),('marker recognition','src/pywriter/odt_r/*.py: handle_starttag, handle_endtag, handle_data')])
p('P16','Spreadsheet columns are read back into the attributes they came from',
  'For scene, character, location and item lists, each column of an exported row is read back into the attribute of the element with the same ID it was exported from, and reading an unchanged list changes no attribute; a changed cell changes exactly its attribute. Empty cells clear values that were set but never create values.',
  ['inputs','programs'],'all columns of all list types; set and unset attributes; repeated-cell encoding',
  'Column order is agreed between a writer template, a header and a reader index; the tests use one sample per list.',
  ['src/pywriter/ods_r/ods_reader.py','src/pywriter/ods_r/ods_parser.py',SW],[('row templates','src/pywriter/ods_w/*.py'),('column access','src/pywriter/ods_r/*.py: read')])
p('P17','Document text is imported completely, however the parser splits it',
  'The text of each imported paragraph is exactly the concatenation, in order, of the character data the XML parser delivers for it; the result does not depend on how the parser cuts the data into fragments, and no fragment (also one consisting of blanks) is dropped, stripped or duplicated. Repeated blanks, tabs and line breaks encoded as elements, text behind footnotes and comments, and the paragraphs of quotations, lists and tables are kept like any other text. Text and sections the user added outside of the sections of the elements leave no trace in them, and a section that has been removed from the document leaves its element, and every other one, as it was.',
  ['inputs','schedules'],'all text document readers, all fragmentations of paragraph text',
  'The fragmentation depends on buffer boundaries and entities in the document, which the test documents do not vary.',
  ['src/pywriter/odt_r/odt_parser.py'],[('event forwarding','src/pywriter/odt_r/odt_parser.py: OdtParser.characters, startElement, endElement'),('collection','src/pywriter/odt_r/*.py: handle_data')])
p('P18','Splitting scenes at dividers neither loses nor duplicates text',
  'When imported scene texts contain scene, chapter or part dividers in any combination and order, each line that is not a divider ends up in exactly one scene, in the original order; each divider creates exactly one new scene, chapter or part with the given title and description, placed in order. All new scenes belong to a chapter, no existing element is overwritten, later scenes of the original chapter follow the new ones, and the split is reported if and only if there was a divider.',
  ['inputs'],'all sequences of text lines and dividers up to the analysed length; one or several scenes and chapters',
  'Only one or two arrangements are covered by the tests; the state machine has eight transitions per pair of lines.',
  ['src/pywriter/model/splitter.py'],[('splitter','src/pywriter/model/splitter.py: Splitter.split_scenes')])
p('P19','Comments become annotations, footnotes and endnotes, each once and in place',
  'In exported formatted documents, each comment of a scene becomes exactly one annotation at its place, with its text and the name of the author; in the manuscript for export, comments marked as footnote or endnote become a note of this kind with their text, the notes not marked with an asterisk are numbered consecutively over the whole document, footnotes marked with an asterisk are labelled with it and not counted, and each note has its own ID.',
  ['inputs'],'all arrangements of comments, footnotes and endnotes over scenes and titles',
  'The tests contain a few notes in a fixed order.',
  ['src/pywriter/odt_w/odt_w_export.py','src/pywriter/odt_w/odt_w_formatted.py'],[('notes','src/pywriter/odt_w/odt_w_export.py: OdtWExport._get_text'),('comments','src/pywriter/odt_w/odt_w_formatted.py: OdtWFormatted._prepare_markup, _get_replacements')])
p('P20','New IDs never collide with existing elements',
  'Whatever IDs exist already, newly created chapters, scenes, project variables and other elements get IDs that are not yet in use, so that adding an element never overwrites an existing one.',
  ['inputs','histories'],'all sets of existing IDs, contiguous or with gaps',
  'ID sets with gaps or many elements are not in the tests.',
  ['src/pywriter/model/id_generator.py','src/pywriter/model/splitter.py',YW],[('ID generation','src/pywriter/model/id_generator.py: create_id')])
p('P21','Every conversion reports its outcome: success with a path, or an error message',
  'For every export, import and creation run, exactly one final status message is sent to the user interface: on success it is not an error, it names the new file, whose path is set, and the file was announced before; on any failure (missing, unsupported, unreadable or corrupt input, refused overwriting, locked project, failing file operation) the message is marked as an error, no new file path is set, and no exception of the application or of file access escapes.',
  ['inputs','fault_sequences'],'all three conversion directions x every failure point of reading, checking and writing',
  'Tests only convert successfully.',
  [CUI,CFF],[('dispatcher',f'{CFF}: YwCnvFf.run'),('conversions',f'{CUI}: YwCnvUi.export_from_yw, create_yw7, import_to_yw')])
p('P22','No existing file is overwritten without consent',
  'If the target of an export or import exists, the user is asked before anything is changed, and a refusal leaves all files untouched and is reported as cancelled. The creation of a new project never overwrites or renames an existing project, whatever the answers are.',
  ['inputs','histories'],'all conversion directions x existing/missing target x answer',
  'The test user interface always says yes and the targets do not exist.',
  [CUI],[('check',f'{CUI}: YwCnvUi.check, _confirm_overwrite')])
p('P23','Each document suffix selects the matching reader and writer',
  'For every document type offered for export, the converter given its suffix creates the writer with that suffix and extension and a target path formed from project path, suffix and extension; for every type that can be imported, the reader with the same suffix and extension is chosen, and the project beside it is the import target. Unsupported suffixes and export-only documents are refused with the application error, so that they never become the source of a new project or update one. Every document type has a description to be shown to the user.',
  ['inputs','configurations'],'all registered document types x file names',
  'The registry is spread over class constants in about 40 modules; tests instantiate the classes directly.',
  ['src/pywriter/converter/yw7_converter.py'],[('registries','src/pywriter/converter/yw7_converter.py, yw7_exporter.py, yw7_importer.py'),('factories','src/pywriter/converter/*_factory.py')])
p('P24','Path handling keeps names intact',
  'The project path derived for an import is the document path without its trailing suffix and extension, with every other occurrence of the suffix, other dots and directories kept; the path of a document object is only accepted if it ends with the suffix and extension of its type.',
  ['inputs'],'all paths, including names that contain suffixes, dots and several extensions',
  'Test files have simple names.',
  ['src/pywriter/converter/import_target_factory.py','src/pywriter/file/file.py'],[('target path','src/pywriter/converter/import_target_factory.py: ImportTargetFactory.make_file_objects'),('path setter','src/pywriter/file/file.py: File.filePath')])
p('P25','Word and letter counts always belong to the current scene text',
  'The word and letter counts of a scene change exactly when its text is set and are computed from the text just set; no other code stores counts, and no scene text is changed behind the counts.',
  ['programs','histories'],'all code that stores scene text or counts',
  'A bypass of the setter shows only in counts nobody compares.',
  ['src/pywriter/model/scene.py'],[('content setter','src/pywriter/model/scene.py: Scene.sceneContent')])
p('P26','All text files are opened with an explicit encoding',
  'Wherever the application opens a file in text mode, writes an XML tree, reads or writes configuration, the encoding is stated explicitly as UTF-8 (or UTF-16 as a fallback when reading), so that results do not depend on the locale of the computer.',
  ['configurations','programs'],'all file-opening call sites of the package',
  'The tests run under a UTF-8 locale, where a missing encoding makes no difference.',
  ['src/pywriter'],[('file access','all open(), ElementTree.write() and ConfigParser read()/write() call sites')])
p('P27','Saved settings and options are read back unchanged',
  'Every setting and option that is written to the configuration file is read back into the same kind of store under the same name with the same value, whatever characters a one-line text without outer blanks contains (names being told apart regardless of upper and lower case); missing entries keep their defaults, undefined entries are ignored, and missing files or sections do no harm.',
  ['inputs','configurations'],'all setting texts and option values, present and missing entries, sections and files',
  'There is no test for the configuration.',
  ['src/pywriter/config/configuration.py'],[('configuration','src/pywriter/config/configuration.py: Configuration.read, write')])
p('P28','No file name is ever interpreted by a command shell',
  'Documents are opened and programs are started without a command shell, the file name being passed as a separate argument; no part of the application evaluates text as program code.',
  ['inputs','programs'],'all call sites that start processes or evaluate code',
  'Needs file names with shell syntax and a real launch.',
  ['src/pywriter/file/doc_open.py'],[('document opening','src/pywriter/file/doc_open.py: open_document')])
p('P29','Messages keep their arguments in every language',
  'Every translatable message is a constant text of the source, its arguments are inserted after translation and fit its placeholders, and every German translation uses exactly the placeholders of its original, so that no message raises an error or loses a file name in any language.',
  ['configurations','programs'],'all translatable messages x languages',
  'Tests run in one language and do not raise most of the messages.',
  ['src/pywriter','i18n'],[('messages','all calls of _()'),('translations','i18n/de.po')])
p('P30','Languages of documents and passages are declared and kept',
  'Every language marked in a scene is found exactly once; missing language codes of a project are taken from the system, implausible ones are replaced by "no language", all others are kept; each exported document has the language of the project; in each formatted document every marked passage has a text style with exactly its language and no language tag is left as text, whatever languages the project records; each saved project has exactly one pair of project variables per language used, its language and country, and all its other project variables unchanged.',
  ['inputs','histories'],'all arrangements of language tags x languages recorded in the project x document types; all kinds of project variables',
  'Tests have one language per text and fresh projects only.',
  ['src/pywriter/model/novel.py','src/pywriter/odt_w','src/pywriter/yw/yw7_file.py'],[('languages','src/pywriter/model/novel.py: Novel.get_languages, check_locale'),('styles','src/pywriter/odt_w/odt_w_formatted.py, odt_w_proof.py: _get_fileHeaderMapping, _convert_from_yw'),('project variables','src/pywriter/yw/yw7_file.py: Yw7File._build_element_tree, _read_projectvars')])
p('P31','The user interface tells the truth and keeps its state consistent',
  'Every message sent to a user interface is shown completely - console, message box, status bar -, with errors, and only errors, marked as such; questions are shown unchanged and only a yes counts as yes; the button offered for opening a new file opens it; after any sequence of opening and closing projects in the main window, project, novel, title, path bar, status and menu belong together, a project that cannot be opened leaves no half-open project behind but a visible error, and the window geometry is kept on quitting.',
  ['inputs','histories'],'all message texts x user interfaces; all sequences of main window operations on good, damaged, locked and missing projects',
  'Tests use no user interface but a stand-in, and no main window.',
  ['src/pywriter/ui'],[('facades','src/pywriter/ui/ui.py, ui_cmd.py, ui_mb.py, ui_tk.py: set_info_how, set_info_what, ask_yes_no, show_warning'),('main window','src/pywriter/ui/main_tk.py: open_project, close_project, restore_status, on_quit')])
p('P32','The cross reference is complete and correct',
  'The cross reference lists, for every character, location, item and tag, exactly the scenes (characters, locations, items) using it, in novel order and without omissions, duplicates or mix-ups between kinds, and the exported cross reference document shows these lists under the proper headings.',
  ['inputs'],'all relations between scenes, chapters, characters, locations, items and tags',
  'One sample novel cannot show a mix-up of kinds which have equal relations.',
  ['src/pywriter/model/cross_references.py','src/pywriter/odt_w/odt_w_xref.py'],[('collection','src/pywriter/model/cross_references.py: CrossReferences.generate_xref'),('document','src/pywriter/odt_w/odt_w_xref.py')])
p('P33','Purging removes all custom data and all language tags, and says so',
  'Resetting the custom variables empties every custom field of every element kind (project, chapters, scenes, characters, locations, items, project notes) and reports a change if and only if there was one; removing the language tags removes all of them from all scenes, keeps all other text, and reports a change if and only if there was one.',
  ['inputs','programs'],'all element kinds x set/unset custom fields; scenes with and without language tags or text',
  'The test covers one project with few custom fields.',
  ['src/pywriter/yw/yw7_purge.py'],[('purge','src/pywriter/yw/yw7_purge.py: reset_custom_variables, remove_language_tags')])
p('P34','The XML data files hold exactly the world elements of the project',
  'The separate XML data files for characters, locations and items are well-formed and contain, in order, each element of their kind with all its attributes, so that used as sections of a project file they are read back unchanged; nothing else is written.',
  ['inputs'],'all characters, locations and items with all attributes and texts',
  'There is no test for the data files.',
  ['src/pywriter/yw/data_files.py'],[('data files','src/pywriter/yw/data_files.py: DataFiles._write_element_tree, _postprocess_xml_file')])
p('P35','Earlier documents, conversions and failures leave no trace in later ones',
  'Within one process, what a reader reads, a writer writes or a conversion does never depends on documents read or written, conversions run, questions answered, or failures met before: the text, styles and languages of an earlier document - also of a malformed one left in the middle - do not appear in a later one and the earlier novel stays as it is; writing another novel or the same one again with the same document object, or again after a failure, gives what a fresh object gives; each conversion reads the current files, reports, asks for consent and names its new file as if it were the first, and leaves the files of the earlier ones alone.',
  ['histories','inputs','fault_sequences'],'all ordered pairs of operations (reading, writing, failing writing, converting) in one process x document types',
  'Tests start each operation with fresh objects and rarely run two of them on different documents in one process.',
  ['src/pywriter/odt_r','src/pywriter/ods_r','src/pywriter/odf','src/pywriter/file','src/pywriter/yw/yw7_file.py','src/pywriter/converter'],
  [('parser state','src/pywriter/odt_r/odt_parser.py, odt_reader.py'),('temporary directory','src/pywriter/odf/odf_file.py: OdfFile._set_up, write'),('converter state','src/pywriter/converter/yw_cnv_ff.py: YwCnvFf.run; yw_cnv_ui.py: YwCnvUi._confirm_overwrite, newFile'),('languages','src/pywriter/model/novel.py: Novel.get_languages')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
import re
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
