From 08cb87d7aea58f2faba25b5d7bdf4f60465fe664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/49] fix: keep XML entities outside the CDATA sections of
 the project file

Unescaping the entire file produced unreadable projects if a text element
without CDATA (e.g. <Conflict>) contained markup characters, and custom
fields inside CDATA were escaped twice.
---
 src/pywriter/yw/yw7_file.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..8827228 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -321,7 +321,7 @@ class Yw7File(File):
                 if prjScn.kwVar.get(field, None):
                     if xmlSceneFields is None:
                         xmlSceneFields = ET.SubElement(xmlScene, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjScn.kwVar[field])
+                    fieldEntry = prjScn.kwVar[field]
                     try:
                         xmlSceneFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -614,7 +614,7 @@ class Yw7File(File):
                     if xmlChapterFields is None:
                         xmlChapterFields = ET.Element('Fields')
                         xmlChapter.insert(i, xmlChapterFields)
-                    fieldEntry = self._convert_from_yw(prjChp.kwVar[field])
+                    fieldEntry = prjChp.kwVar[field]
                     try:
                         xmlChapterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -673,7 +673,7 @@ class Yw7File(File):
                 if prjLoc.kwVar.get(field, None):
                     if xmlLocationFields is None:
                         xmlLocationFields = ET.SubElement(xmlLoc, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjLoc.kwVar[field])
+                    fieldEntry = prjLoc.kwVar[field]
                     try:
                         xmlLocationFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -729,7 +729,7 @@ class Yw7File(File):
                 if prjItm.kwVar.get(field, None):
                     if xmlItemFields is None:
                         xmlItemFields = ET.SubElement(xmlItm, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjItm.kwVar[field])
+                    fieldEntry = prjItm.kwVar[field]
                     try:
                         xmlItemFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -781,7 +781,7 @@ class Yw7File(File):
                 if prjCrt.kwVar.get(field, None):
                     if xmlCharacterFields is None:
                         xmlCharacterFields = ET.SubElement(xmlCrt, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjCrt.kwVar[field])
+                    fieldEntry = prjCrt.kwVar[field]
                     try:
                         xmlCharacterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -876,7 +876,7 @@ class Yw7File(File):
                 if setting:
                     if xmlProjectFields is None:
                         xmlProjectFields = ET.SubElement(xmlProject, 'Fields')
-                    fieldEntry = self._convert_from_yw(setting)
+                    fieldEntry = setting
                     try:
                         xmlProjectFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -1125,12 +1125,20 @@ class Yw7File(File):
             filePath: str -- path to xml file.
         
         Read the xml file, put a header on top, insert the missing CDATA tags,
-        and replace xml entities by plain text (unescape). Overwrite the .yw7 xml file.
+        and replace xml entities inside the CDATA sections by plain text (unescape). Overwrite the .yw7 xml file.
         Raise the "Error" exception in case of error. 
         
         Note: The path is given as an argument rather than using self.filePath. 
         So this routine can be used for yWriter-generated xml files other than .yw7 as well. 
         """
+
+
+        def unescape_cdata(match):
+            """Return a CDATA section containing plain text."""
+            content = unescape(match.group(1)).replace(']]>', ']]]]><![CDATA[>')
+            # a CDATA section must not contain its own end marker.
+            return f'<![CDATA[{content}]]>'
+
         with open(filePath, 'r', encoding='utf-8') as f:
             text = f.read()
         lines = text.split('\n')
@@ -1146,7 +1154,8 @@ class Yw7File(File):
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
+        text = re.sub(r'<!\[CDATA\[(.*?)\]\]>', unescape_cdata, text, flags=re.DOTALL)
+        # Entities outside the CDATA sections are needed for a well-formed XML file.
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From 5a81a27e7ceca00f03e5ac927d83f4de81620456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/49] fix: write the scene's item IDs with the tag that is
 read back

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 8827228..8686b5a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From f8700802452481071802f5a6a95472232dc35746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 03/49] fix: do not delete vertical bars when removing control
 characters

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 8686b5a..707a265 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From e498b703d4c5e5096180b802a9f6cfd392a5e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 04/49] fix: do not drop project notes that have custom fields

---
 src/pywriter/yw/yw7_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 707a265..e374a8c 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1369,9 +1369,10 @@ class Yw7File(File):
 
                 #--- Read project note custom fields.
                 for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    for fieldName in self.PNT_KWVAR:
+                        field = pnFields.find(fieldName)
+                        if field is not None:
+                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From 17754233c068302b58a1b7b87398c2265ff54e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 05/49] fix: use the existing attribute when resetting project
 note variables

---
 src/pywriter/yw/yw7_purge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..c983e21 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -52,8 +52,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From b9d093d43bfd25eed524ba7e47c32a630ec2cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 06/49] fix: keep inner occurrences of the suffix when looking
 for the project to update

---
 src/pywriter/converter/import_target_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..7c6a389 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -40,7 +40,7 @@ class ImportTargetFactory(FileFactory):
             e = fileName.split(sourceSuffix)
             if len(e) > 1:
                 e.pop()
-            ywPathBasis = ''.join(e)
+            ywPathBasis = sourceSuffix.join(e)
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From 81fddcd218fb67370a7c9ce25db076efe5818b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 07/49] fix: keep the scene text before a chapter divider
 followed by a scene divider

---
 src/pywriter/model/splitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..3ef86e6 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -137,8 +137,9 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
-                        newLines = []
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                            newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
                         create_scene(sceneId, file.novel.scenes[scId], sceneSplitCount, title, desc)
@@ -174,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From 4a50d4f23b240c30f92d9cb22de15525c46f7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 08/49] fix: escape names, titles and tags in the exported
 documents

---
 src/pywriter/file/file_export.py       | 16 ++++++++--------
 src/pywriter/odf/odf_file.py           |  7 ++++---
 src/pywriter/odt_w/odt_w_characters.py |  4 ++--
 src/pywriter/odt_w/odt_w_export.py     |  4 +++-
 src/pywriter/odt_w/odt_w_formatted.py  |  5 +++--
 src/pywriter/odt_w/odt_w_items.py      |  2 +-
 src/pywriter/odt_w/odt_w_locations.py  |  2 +-
 src/pywriter/odt_w/odt_w_proof.py      |  5 +++--
 src/pywriter/odt_w/odt_w_xref.py       |  2 +-
 9 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..90d8d44 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -517,10 +517,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self._convert_from_yw(self.novel.scenes[scId].field1, True),
+            Field2=self._convert_from_yw(self.novel.scenes[scId].field2, True),
+            Field3=self._convert_from_yw(self.novel.scenes[scId].field3, True),
+            Field4=self._convert_from_yw(self.novel.scenes[scId].field4, True),
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -535,10 +535,10 @@ class FileExport(File):
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
             Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..7657d37 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -147,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..d609448 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{characterMapping["AKA"]}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{characterMapping["FullName"]}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..75aa3f8 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import re
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -108,7 +109,8 @@ class OdtWExport(OdtWFormatted):
             text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
+            author = escape(self.novel.authorName or '').replace('\\', '\\\\')
+            simpleComment = (f'<office:annotation><dc:creator>{author}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
             text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..3b3276a 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_writer import OdtWriter
 
@@ -120,7 +121,7 @@ class OdtWFormatted(OdtWriter):
             lines = ['<office:automatic-styles>']
             for i, language in enumerate(self.novel.languages, 1):
                 try:
-                    lngCode, ctrCode = language.split('-')
+                    lngCode, ctrCode = escape(language, {'"': '&quot;'}).split('-')
                 except:
                     lngCode = 'zxx'
                     ctrCode = 'none'
@@ -148,7 +149,7 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
                 ]
 
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..d6c5b29 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{itemMapping["AKA"]}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..a0f9da5 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{locationMapping["AKA"]}")'
         return locationMapping
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..11e0eda 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -64,7 +65,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
@@ -127,7 +128,7 @@ class OdtWProof(OdtWFormatted):
         lines = ['<office:automatic-styles>']
         for i, language in enumerate(self.novel.languages, 1):
             try:
-                lngCode, ctrCode = language.split('-')
+                lngCode, ctrCode = escape(language, {'"': '&quot;'}).split('-')
             except:
                 lngCode = 'zxx'
                 ctrCode = 'none'
diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From 725f3a385e027a04cf9f788afd3be98c37ffc200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/49] fix: restore the project file if postprocessing fails

---
 src/pywriter/yw/yw7_file.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index e374a8c..e8a62fa 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -201,8 +201,13 @@ class Yw7File(File):
                     self.novel.scenes[scId].kwVar['Field_SceneMode'] = str(self.novel.scenes[scId].scnMode)
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
-        self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
+        backedUp = self._write_element_tree(self)
+        try:
+            self._postprocess_xml_file(self.filePath)
+        except:
+            if backedUp:
+                os.replace(f'{self.filePath}.bak', self.filePath)
+            raise Error(f'{_("Cannot write file")}: "{norm_path(self.filePath)}".')
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1694,6 +1699,7 @@ class Yw7File(File):
     def _write_element_tree(self, ywProject):
         """Write back the xml element tree to a .yw7 xml file located at filePath.
         
+        Return True, if a backup copy of an existing file has been made.
         Raise the "Error" exception in case of error. 
         """
         backedUp = False
@@ -1710,4 +1716,5 @@ class Yw7File(File):
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
+        return backedUp
 
-- 
2.43.0


From a8286048e6715ac277ef45961415678b50bc2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 10/49] fix: restore the document path if writing the content
 fails

---
 src/pywriter/odf/odf_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 7657d37..2778ab9 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -67,8 +67,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
-- 
2.43.0


From 0a85c614ed97dffab048085ef7ca4f1d11b004ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 11/49] fix: keep the spaces around formatted text when
 importing descriptions and manuscripts

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 4 ++--
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  | 3 +--
 5 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..d565276 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -37,7 +37,7 @@ class OdtRChapterDesc(OdtReader):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
-                    self.novel.chapters[self._chId].title = ''.join(self._lines)
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
                 self._lines = []
 
     def handle_data(self, data):
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..921ecf2 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,8 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From df0acc588b542aa7e648abc2a4594be09da5de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 12/49] fix: close all tags of a text span at its end

---
 src/pywriter/odt_r/odt_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..3945bf8 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -123,7 +123,9 @@ class OdtParser(sax.ContentHandler):
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    tag = self._span.pop()
+                    if tag is not None:
+                        self._client.handle_endtag(tag)
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -134,8 +136,11 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
-                self._client.handle_endtag(self._span.pop())
+            while self._span:
+                tag = self._span.pop()
+                if tag is None:
+                    break
+                self._client.handle_endtag(tag)
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -188,6 +193,8 @@ class OdtParser(sax.ContentHandler):
                 self._span.append('strong')
                 self._client.handle_starttag('strong', [()])
         elif name == 'text:span':
+            self._span.append(None)
+            # A span can open any number of tags. They are all closed at its end.
             if style in self._emTags:
                 self._span.append('em')
                 self._client.handle_starttag('em', [()])
-- 
2.43.0


From 4413dc6090526850251da849a62b1b66a7fa6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 13/49] fix: accept text styles with a language, but without a
 country

---
 src/pywriter/odt_r/odt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 3945bf8..377b18e 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -232,7 +232,7 @@ class OdtParser(sax.ContentHandler):
                 self._strongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
-                ctrCode = xmlAttributes['fo:country']
+                ctrCode = xmlAttributes.get('fo:country', 'none')
                 if ctrCode != 'none':
                     locale = f'{lngCode}-{ctrCode}'
                 else:
-- 
2.43.0


From bbdaf20c1a0e88c004a4e1aa1ce359424f52b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 14/49] fix: import all paragraphs of a comment

---
 src/pywriter/odt_r/odt_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 377b18e..7ab0d63 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -33,6 +33,7 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._commentParagraph = False
         self._blockquote = False
         self._list = False
         self._span = []
@@ -108,7 +109,7 @@ class OdtParser(sax.ContentHandler):
         Overrides the xml.sax.ContentHandler method             
         """
         if self._commentParagraphCount is not None:
-            if self._commentParagraphCount == 1:
+            if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
             self._client.handle_data(content)
@@ -135,6 +136,8 @@ class OdtParser(sax.ContentHandler):
                 else:
                     self._client.handle_endtag('p')
                 self._paragraph = False
+            else:
+                self._commentParagraph = False
         elif name == 'text:span':
             while self._span:
                 tag = self._span.pop()
@@ -169,7 +172,10 @@ class OdtParser(sax.ContentHandler):
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
+                if self._commentParagraphCount > 0:
+                    self._comment = f'{self._comment}\n'
                 self._commentParagraphCount += 1
+                self._commentParagraph = True
             elif style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
                 self._paragraph = True
-- 
2.43.0


From 3a197c79486e7ec07f00f38cd2e3f4fb616c8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 15/49] fix: accept percent signs and invalid options in
 configuration files

---
 src/pywriter/config/configuration.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..5e5b60d 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,7 +45,7 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         config.read(iniFile, encoding='utf-8')
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
@@ -56,7 +56,10 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    pass
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
@@ -76,7 +79,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From a184fc3a091e741d4823eedb25093efdc87eaec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 16/49] fix: open documents without passing their names to a
 shell

---
 src/pywriter/file/doc_open.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/doc_open.py b/src/pywriter/file/doc_open.py
index 031b0d3..97a814e 100644
--- a/src/pywriter/file/doc_open.py
+++ b/src/pywriter/file/doc_open.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import os
+import subprocess
 from pywriter.pywriter_globals import *
 
 
@@ -15,11 +16,11 @@ def open_document(document):
         # Windows
     except:
         try:
-            os.system('xdg-open "%s"' % norm_path(document))
+            subprocess.call(['xdg-open', norm_path(document)])
             # Linux
         except:
             try:
-                os.system('open "%s"' % norm_path(document))
+                subprocess.call(['open', norm_path(document)])
                 # Mac
             except:
                 pass
-- 
2.43.0


From b169cfaa0a9a1cbf9cc0477f15bba8442ff1e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 17/49] fix: do not crash if the system locale is not set

---
 src/pywriter/model/novel.py      | 6 +++++-
 src/pywriter/pywriter_globals.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 5753468..b1be114 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -178,7 +178,11 @@ class Novel(BasicElement):
                 sysLng, sysCtr = locale.getlocale()[0].split('_')
             except:
                 # Fallback for old Windows versions.
-                sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                try:
+                    sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                except:
+                    # The system locale isn't set.
+                    sysLng, sysCtr = 'zxx', 'none'
             self.languageCode = sysLng
             self.countryCode = sysCtr
             return
diff --git a/src/pywriter/pywriter_globals.py b/src/pywriter/pywriter_globals.py
index 5e4eea7..b41a703 100644
--- a/src/pywriter/pywriter_globals.py
+++ b/src/pywriter/pywriter_globals.py
@@ -30,7 +30,7 @@ try:
     CURRENT_LANGUAGE = locale.getlocale()[0][:2]
 except:
     # Fallback for old Windows versions.
-    CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    CURRENT_LANGUAGE = (locale.getdefaultlocale()[0] or '')[:2]
 try:
     t = gettext.translation('pywriter', LOCALE_PATH, languages=[CURRENT_LANGUAGE])
     _ = t.gettext
-- 
2.43.0


From 19d27c055eb8338961fbe53e993920317f19047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 18/49] fix: report unsupported files if no project can be
 created

---
 src/pywriter/converter/yw_cnv_ff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..b69b880 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -75,6 +75,10 @@ class YwCnvFf(YwCnvUi):
                 source, __ = self.importSourceFactory.make_file_objects(sourcePath, **kwargs)
             except Error:
                 # A new yWriter project might be required.
+                if self.newProjectFactory is None:
+                    self.ui.set_info_how(f'!{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+                    return
+
                 try:
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
-- 
2.43.0


From b2381f942a51f4220b57b395fc7871f4c2176de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 19/49] fix: process project files that are not encoded as
 UTF-8 or UTF-16

---
 src/pywriter/yw/yw7_file.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index e8a62fa..c298133 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -148,14 +148,19 @@ class Yw7File(File):
                     xmlText = f.read()
         except:
             try:
-                self.tree = ET.parse(self.filePath)
+                root = ET.parse(self.filePath).getroot()
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-        root = ET.fromstring(xmlText)
-        xmlText = None
-        # saving memory
+        else:
+            xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
+            try:
+                root = ET.fromstring(xmlText)
+            except Exception as ex:
+                raise Error(f'{_("Can not process file")} - {str(ex)}')
+
+            xmlText = None
+            # saving memory
         self.tree = ET.ElementTree(root)
         self._read_project(root)
         self._read_locations(root)
-- 
2.43.0


From ab6e0eea14e31b6f137126b71cdf7be44b64d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 20/49] fix: accept scenes without status

---
 src/pywriter/file/file_export.py | 8 +++++++-
 src/pywriter/model/splitter.py   | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 90d8d44..a0bed2d 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -460,6 +460,12 @@ class FileExport(File):
         else:
             reactionScene = Scene.ACTION_MARKER
 
+        #--- Scene status.
+        if self.novel.scenes[scId].status is not None:
+            scStatus = Scene.STATUS[self.novel.scenes[scId].status]
+        else:
+            scStatus = ''
+
         #--- Date or day.
         if self.novel.scenes[scId].date is not None and self.novel.scenes[scId].date != Scene.NULL_DATE:
             scDay = ''
@@ -511,7 +517,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=scStatus,
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 3ef86e6..b08b04e 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
-- 
2.43.0


From 9844b32b4c7c034646bae1882d11da10bab9297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 21/49] fix: do not delete line breaks inside the texts of the
 project file

---
 src/pywriter/yw/yw7_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c298133..04d786a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1159,8 +1159,9 @@ class Yw7File(File):
                 line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
             newlines.append(line)
         text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+        text = text.replace('<![CDATA[ \n', '<![CDATA[')
+        text = text.replace('\n]]>', ']]>')
+        # The texts themselves contain no "<" and ">" here, so only the inserted tags are affected.
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-- 
2.43.0


From 22cddf01960a36cd338466eb50b04306d8a4e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 22/49] fix: do not touch the novel if the project is locked

---
 src/pywriter/yw/yw7_file.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 04d786a..5e06ed5 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -132,12 +132,11 @@ class Yw7File(File):
         Raise the "Error" exception in case of error. 
         Overrides the superclass method.
         """
+        if self.is_locked():
+            raise Error(f'{_("yWriter seems to be open. Please close first")}.')
 
         for field in self.PRJ_KWVAR:
             self.novel.kwVar[field] = None
-
-        if self.is_locked():
-            raise Error(f'{_("yWriter seems to be open. Please close first")}.')
         try:
             try:
                 with open(self.filePath, 'r', encoding='utf-8') as f:
-- 
2.43.0


From ef0db359c5ee2cca35f2be93f56750c9ab69db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 23/49] fix: fill the locale placeholders in the settings of
 spreadsheets

---
 src/pywriter/odf/odf_file.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 2778ab9..daa1055 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -121,9 +121,16 @@ class OdfFile(FileExport):
             raise Error(f'{_("Cannot write file")}: "mimetype"')
 
         #--- Generate settings.xml.
+        self.novel.check_locale()
+        localeMapping = dict(
+            Language=self.novel.languageCode,
+            Country=self.novel.countryCode,
+            )
+        template = Template(self._SETTINGS_XML)
+        text = template.safe_substitute(localeMapping)
         try:
             with open(f'{self._tempDir}/settings.xml', 'w', encoding='utf-8') as f:
-                f.write(self._SETTINGS_XML)
+                f.write(text)
         except:
             raise Error(f'{_("Cannot write file")}: "settings.xml"')
 
@@ -135,11 +142,6 @@ class OdfFile(FileExport):
             raise Error(f'{_("Cannot write file")}: "manifest.xml"')
 
         #--- Generate styles.xml.
-        self.novel.check_locale()
-        localeMapping = dict(
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
-            )
         template = Template(self._STYLES_XML)
         text = template.safe_substitute(localeMapping)
         try:
-- 
2.43.0


From 3573d994f5208d9f700f336a1dc88a96d16c982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 24/49] fix: keep documents well-formed with unpaired or
 interleaved markup

---
 src/pywriter/odt_w/odt_w_formatted.py | 109 +++++++++++++++++++-------
 src/pywriter/odt_w/odt_w_proof.py     |  28 +------
 2 files changed, 81 insertions(+), 56 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 3b3276a..b4038e2 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -43,6 +43,76 @@ class OdtWFormatted(OdtWriter):
             self.novel.get_languages()
         return super().write()
 
+    def _balance_markup(self, text, tags):
+        """Return text with all markup paired and nested within its paragraph.
+        
+        Positional arguments:
+            text: str -- yw7 markup.
+            tags: list -- formatting tags without brackets.
+        
+        Markup reaching across linebreaks is closed and reopened.
+        A closing tag without an opening one gets it at the beginning of the line.
+        """
+        newlines = []
+        isOpen = {}
+        for tag in tags:
+            isOpen[tag] = False
+        for line in text.split('\n'):
+            for tag in tags:
+                opening = f'[{tag}]'
+                closing = f'[/{tag}]'
+                missing = 0
+                depth = 0
+                if isOpen[tag]:
+                    missing += 1
+                    depth += 1
+                for mark in re.findall(f'{re.escape(opening)}|{re.escape(closing)}', line):
+                    if mark == opening:
+                        depth += 1
+                    elif depth > 0:
+                        depth -= 1
+                    else:
+                        missing += 1
+                if missing > 0:
+                    if line.startswith('> '):
+                        line = f'> {opening * missing}{line[2:]}'
+                    else:
+                        line = f'{opening * missing}{line}'
+                line = f'{line}{closing * depth}'
+                isOpen[tag] = depth > 0
+                line = line.replace(f'{opening}{closing}', '')
+            newlines.append(line)
+        return '\n'.join(newlines)
+
+    def _prepare_markup(self, text, tags):
+        """Return text with all markup paired and nested.
+        
+        Positional arguments:
+            text: str -- yw7 markup.
+            tags: list -- formatting tags without brackets.
+        
+        The markup inside a comment is independent of the markup around it.
+        In unpaired comment marks, the asterisk is masked (see _unmask()).
+        """
+
+        def mask(text):
+            return text.replace('/*', '/\x01').replace('*/', '\x01/')
+
+        def set_aside(match):
+            comments.append(mask(self._balance_markup(match.group(1), tags)))
+            return '\x02'
+
+        comments = []
+        text = re.sub(r'\/\*(.*?)\*\/', set_aside, text, flags=re.DOTALL)
+        text = mask(self._balance_markup(text, tags))
+        for comment in comments:
+            text = text.replace('\x02', f'/*{comment}*/', 1)
+        return text
+
+    def _unmask(self, text):
+        """Return text with the masked asterisks as character references."""
+        return text.replace('\x01', '&#42;')
+
     def _convert_from_yw(self, text, quick=False):
         """Return text, converted from yw7 markup to target format.
         
@@ -63,6 +133,7 @@ class OdtWFormatted(OdtWriter):
                 ("'", '&apos;'),
                 ('"', '&quot;'),
                 ]
+            tags = []
             if not quick:
                 tags = ['i', 'b']
                 odtReplacements.extend(self._get_replacements())
@@ -70,41 +141,19 @@ class OdtWFormatted(OdtWriter):
                     tags.append(f'lang={language}')
                     odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
-
-                #--- Process markup reaching across linebreaks.
-                newlines = []
-                lines = text.split('\n')
-                isOpen = {}
-                opening = {}
-                closing = {}
-                for tag in tags:
-                    isOpen[tag] = False
-                    opening[tag] = f'[{tag}]'
-                    closing[tag] = f'[/{tag}]'
-                for line in lines:
-                    for tag in tags:
-                        if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
-                            else:
-                                line = f'{opening[tag]}{line}'
-                            isOpen[tag] = False
-                        while line.count(opening[tag]) > line.count(closing[tag]):
-                            line = f'{line}{closing[tag]}'
-                            isOpen[tag] = True
-                        while line.count(closing[tag]) > line.count(opening[tag]):
-                            line = f'{opening[tag]}{line}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+            text = self._prepare_markup(text, tags)
+            if not quick:
+                text = text.rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
+            text = self._unmask(text)
 
-            # Remove highlighting, alignment,
-            # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            if not quick:
+                # Remove highlighting, alignment,
+                # strikethrough, and underline tags.
+                text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
         else:
             text = ''
         return text
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 11e0eda..7984b5b 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -78,36 +78,12 @@ class OdtWProof(OdtWFormatted):
                 ('[b]', f'<text:span text:style-name="T{i+2}">'),
             ])
 
-            #--- Process markup reaching across linebreaks.
-            newlines = []
-            lines = text.split('\n')
-            isOpen = {}
-            opening = {}
-            closing = {}
-            for tag in tags:
-                isOpen[tag] = False
-                opening[tag] = f'[{tag}]'
-                closing[tag] = f'[/{tag}]'
-            for line in lines:
-                for tag in tags:
-                    if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
-                        else:
-                            line = f'{opening[tag]}{line}'
-                        isOpen[tag] = False
-                    while line.count(opening[tag]) > line.count(closing[tag]):
-                        line = f'{line}{closing[tag]}'
-                        isOpen[tag] = True
-                    while line.count(closing[tag]) > line.count(opening[tag]):
-                        line = f'{opening[tag]}{line}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            text = self._prepare_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
+            text = self._unmask(text)
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-- 
2.43.0


From 564d6271abd25ff8da3579c2691c3ac6dc68ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 25/49] fix: do not replace texts like @n@ when converting
 comments

---
 src/pywriter/odt_w/odt_w_export.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 75aa3f8..fddf7d9 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -106,15 +106,13 @@ class OdtWExport(OdtWFormatted):
         #--- Convert comments, footnotes, and endnotes.
         # This is done once for the entire document because of the document-wide note numbering.
         if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
             author = escape(self.novel.authorName or '').replace('\\', '\\\\')
             simpleComment = (f'<office:annotation><dc:creator>{author}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
+            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text, flags=re.DOTALL)
         return text
 
-- 
2.43.0


From e901a7cd0f0d0ac82068581cc7aea4a7fed1c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 26/49] fix: keep unpaired comment marks as text in documents

---
 src/pywriter/odt_w/odt_w_export.py    |  9 +++++---
 src/pywriter/odt_w/odt_w_formatted.py | 31 +++++++++++----------------
 src/pywriter/odt_w/odt_w_proof.py     |  5 ++---
 3 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index fddf7d9..96b197c 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -48,6 +48,9 @@ class OdtWExport(OdtWFormatted):
         """
         if not quick:
             text = self._remove_inline_code(text)
+        elif text:
+            # Keep comments in titles.
+            text = re.sub(r'\/\*(.*?)\*\/', f'{self._COMMENT_START}\\1{self._COMMENT_END}', text)
         text = super()._convert_from_yw(text, quick)
         return(text)
 
@@ -105,14 +108,14 @@ class OdtWExport(OdtWFormatted):
 
         #--- Convert comments, footnotes, and endnotes.
         # This is done once for the entire document because of the document-wide note numbering.
-        if text.find('/*') > 0:
+        if text.find(self._COMMENT_START) > 0:
             self._noteCounter = 0
             self._noteNumber = 0
             author = escape(self.novel.authorName or '').replace('\\', '\\\\')
             simpleComment = (f'<office:annotation><dc:creator>{author}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text, flags=re.DOTALL)
+            text = re.sub(f'{self._COMMENT_START} *@([ef]n\\**) (.*?){self._COMMENT_END}', replace_note, text, flags=re.DOTALL)
+            text = re.sub(f'{self._COMMENT_START}(.*?){self._COMMENT_END}', simpleComment, text, flags=re.DOTALL)
         return text
 
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index b4038e2..0745fd1 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -34,6 +34,10 @@ class OdtWFormatted(OdtWriter):
 
 '''
 
+    # Control characters marking comments during the conversion.
+    _COMMENT_START = '\x02'
+    _COMMENT_END = '\x03'
+
     def write(self):
         """Determine the languages used in the document before writing.
         
@@ -92,27 +96,21 @@ class OdtWFormatted(OdtWriter):
             tags: list -- formatting tags without brackets.
         
         The markup inside a comment is independent of the markup around it.
-        In unpaired comment marks, the asterisk is masked (see _unmask()).
+        Paired comment marks are replaced by control characters.
+        Unpaired comment marks are part of the text.
         """
 
-        def mask(text):
-            return text.replace('/*', '/\x01').replace('*/', '\x01/')
-
         def set_aside(match):
-            comments.append(mask(self._balance_markup(match.group(1), tags)))
-            return '\x02'
+            comments.append(self._balance_markup(match.group(1), tags))
+            return '\x01'
 
         comments = []
         text = re.sub(r'\/\*(.*?)\*\/', set_aside, text, flags=re.DOTALL)
-        text = mask(self._balance_markup(text, tags))
+        text = self._balance_markup(text, tags)
         for comment in comments:
-            text = text.replace('\x02', f'/*{comment}*/', 1)
+            text = text.replace('\x01', f'{self._COMMENT_START}{comment}{self._COMMENT_END}', 1)
         return text
 
-    def _unmask(self, text):
-        """Return text with the masked asterisks as character references."""
-        return text.replace('\x01', '&#42;')
-
     def _convert_from_yw(self, text, quick=False):
         """Return text, converted from yw7 markup to target format.
         
@@ -141,14 +139,11 @@ class OdtWFormatted(OdtWriter):
                     tags.append(f'lang={language}')
                     odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
-            text = self._prepare_markup(text, tags)
-            if not quick:
-                text = text.rstrip()
+                text = self._prepare_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
-            text = self._unmask(text)
 
             if not quick:
                 # Remove highlighting, alignment,
@@ -198,8 +193,8 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
+                (self._COMMENT_START, f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
+                (self._COMMENT_END, '</text:p></office:annotation>'),
                 ]
 
     def _get_text(self):
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 7984b5b..2d914f8 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -65,8 +65,8 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
+                (self._COMMENT_START, f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
+                (self._COMMENT_END, '</text:p></office:annotation>'),
             ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
@@ -83,7 +83,6 @@ class OdtWProof(OdtWFormatted):
             #--- Apply odt formating.
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
-            text = self._unmask(text)
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-- 
2.43.0


From c0d5ebb2c8ffd18b26ac9b18fac6d50019c0b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 27/49] fix: escape unusual language and country codes in
 documents

---
 src/pywriter/odf/odf_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index daa1055..7435727 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -123,8 +123,8 @@ class OdfFile(FileExport):
         #--- Generate settings.xml.
         self.novel.check_locale()
         localeMapping = dict(
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=escape(self.novel.languageCode, {'"': '&quot;'}),
+            Country=escape(self.novel.countryCode, {'"': '&quot;'}),
             )
         template = Template(self._SETTINGS_XML)
         text = template.safe_substitute(localeMapping)
-- 
2.43.0


From fc34b0664dc3d3fce0f9e61c6b10b368264af2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 28/49] fix: close all languages when importing nested language
 markup

---
 src/pywriter/odt_r/odt_r_import.py     | 37 +++++++++++++-------------
 src/pywriter/odt_r/odt_r_manuscript.py | 28 +++++++++----------
 src/pywriter/odt_r/odt_r_proof.py      | 28 +++++++++----------
 src/pywriter/odt_r/odt_reader.py       |  2 +-
 4 files changed, 48 insertions(+), 47 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..7f49d21 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -93,9 +93,8 @@ class OdtRImport(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ('p', 'blockquote'):
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            while self._openLanguages:
+                self._lines.append(f'[/lang={self._openLanguages.pop()}]')
             self._lines.append('\n')
             if self._scId is not None:
                 sceneText = ''.join(self._lines).rstrip()
@@ -112,9 +111,8 @@ class OdtRImport(OdtRFormatted):
         elif tag == 'strong' and not self._heading:
             self._lines.append('[/b]')
         elif tag == 'lang' and not self._heading:
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            if self._openLanguages:
+                self._lines.append(f'[/lang={self._openLanguages.pop()}]')
         elif tag in ('h1', 'h2'):
             self.novel.chapters[self._chId].title = ''.join(self._lines)
             self._lines = []
@@ -143,10 +141,11 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    language = attrs[0][1]
+                    self._openLanguages.append(language)
+                    if not language in self.novel.languages:
+                        self.novel.languages.append(language)
+                    self._lines.append(f'[lang={language}]')
             except:
                 pass
         elif tag == 'em' and not self._heading:
@@ -155,10 +154,11 @@ class OdtRImport(OdtRFormatted):
             self._lines.append('[b]')
         elif tag == 'lang' and not self._heading:
             if attrs[0][0] == 'lang':
-                self._language = attrs[0][1]
-                if not self._language in self.novel.languages:
-                    self.novel.languages.append(self._language)
-                self._lines.append(f'[lang={self._language}]')
+                language = attrs[0][1]
+                self._openLanguages.append(language)
+                if not language in self.novel.languages:
+                    self.novel.languages.append(language)
+                self._lines.append(f'[lang={language}]')
         elif tag in ('h1', 'h2'):
             self._scId = None
             self._lines = []
@@ -197,10 +197,11 @@ class OdtRImport(OdtRFormatted):
             self._lines.append(f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    language = attrs[0][1]
+                    self._openLanguages.append(language)
+                    if not language in self.novel.languages:
+                        self.novel.languages.append(language)
+                    self._lines.append(f'[lang={language}]')
             except:
                 pass
         elif tag == 's':
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 921ecf2..9fcb253 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -72,18 +72,16 @@ class OdtRManuscript(OdtRFormatted):
         """
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                while self._openLanguages:
+                    self._lines.append(f'[/lang={self._openLanguages.pop()}]')
                 self._lines.append('\n')
             elif tag == 'em':
                 self._lines.append('[/i]')
             elif tag == 'strong':
                 self._lines.append('[/b]')
             elif tag == 'lang':
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                if self._openLanguages:
+                    self._lines.append(f'[/lang={self._openLanguages.pop()}]')
             elif tag == 'div':
                 text = ''.join(self._lines)
                 self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
@@ -115,10 +113,11 @@ class OdtRManuscript(OdtRFormatted):
             elif tag in ('lang', 'p'):
                 try:
                     if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
+                        language = attrs[0][1]
+                        self._openLanguages.append(language)
+                        if not language in self.novel.languages:
+                            self.novel.languages.append(language)
+                        self._lines.append(f'[lang={language}]')
                 except:
                     pass
             elif tag == 'h3':
@@ -135,10 +134,11 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append(f'{self._INDENT} ')
                 try:
                     if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
+                        language = attrs[0][1]
+                        self._openLanguages.append(language)
+                        if not language in self.novel.languages:
+                            self.novel.languages.append(language)
+                        self._lines.append(f'[lang={language}]')
                 except:
                     pass
         elif tag == 'body':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..12190d9 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -58,17 +58,15 @@ class OdtRProof(OdtRFormatted):
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
             self._lines.append('\n')
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            while self._openLanguages:
+                self._lines.append(f'[/lang={self._openLanguages.pop()}]')
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
             self._lines.append('[/b]')
         elif tag == 'lang':
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            if self._openLanguages:
+                self._lines.append(f'[/lang={self._openLanguages.pop()}]')
 
     def handle_starttag(self, tag, attrs):
         """Recognize the paragraph's beginning.
@@ -86,10 +84,11 @@ class OdtRProof(OdtRFormatted):
         elif tag in ('lang', 'p'):
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    language = attrs[0][1]
+                    self._openLanguages.append(language)
+                    if not language in self.novel.languages:
+                        self.novel.languages.append(language)
+                    self._lines.append(f'[lang={language}]')
             except:
                 pass
         elif tag == 'h2':
@@ -102,10 +101,11 @@ class OdtRProof(OdtRFormatted):
             self._lines.append(f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    language = attrs[0][1]
+                    self._openLanguages.append(language)
+                    if not language in self.novel.languages:
+                        self.novel.languages.append(language)
+                    self._lines.append(f'[lang={language}]')
             except:
                 pass
         elif tag == 'body':
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..45c7a4e 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -55,7 +55,7 @@ class OdtReader(File, ABC):
         self._scId = None
         self._chId = None
         self._newline = False
-        self._language = ''
+        self._openLanguages = []
         self._skip_data = False
 
     def handle_comment(self, data):
-- 
2.43.0


From e9df66da16a6cc36b19b22c005d73883f20c500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 29/49] fix: reopen markup in its order when it reaches across
 linebreaks

---
 src/pywriter/odt_w/odt_w_formatted.py | 46 ++++++++++++---------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 0745fd1..9d6c5fa 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -58,33 +58,27 @@ class OdtWFormatted(OdtWriter):
         A closing tag without an opening one gets it at the beginning of the line.
         """
         newlines = []
-        isOpen = {}
-        for tag in tags:
-            isOpen[tag] = False
+        openTags = []
+        # Tags in the order of opening.
+        marks = '|'.join([re.escape(tag) for tag in tags])
         for line in text.split('\n'):
-            for tag in tags:
-                opening = f'[{tag}]'
-                closing = f'[/{tag}]'
-                missing = 0
-                depth = 0
-                if isOpen[tag]:
-                    missing += 1
-                    depth += 1
-                for mark in re.findall(f'{re.escape(opening)}|{re.escape(closing)}', line):
-                    if mark == opening:
-                        depth += 1
-                    elif depth > 0:
-                        depth -= 1
-                    else:
-                        missing += 1
-                if missing > 0:
-                    if line.startswith('> '):
-                        line = f'> {opening * missing}{line[2:]}'
-                    else:
-                        line = f'{opening * missing}{line}'
-                line = f'{line}{closing * depth}'
-                isOpen[tag] = depth > 0
-                line = line.replace(f'{opening}{closing}', '')
+            prefix = ''.join([f'[{tag}]' for tag in openTags])
+            for isClosing, tag in re.findall(f'\\[(/?)({marks})\\]', line):
+                if not isClosing:
+                    openTags.append(tag)
+                elif tag in openTags:
+                    openTags.reverse()
+                    openTags.remove(tag)
+                    openTags.reverse()
+                else:
+                    prefix = f'{prefix}[{tag}]'
+            suffix = ''.join([f'[/{tag}]' for tag in reversed(openTags)])
+            if line.startswith('> '):
+                line = f'> {prefix}{line[2:]}{suffix}'
+            else:
+                line = f'{prefix}{line}{suffix}'
+            while re.search(f'\\[({marks})\\]\\[/\\1\\]', line):
+                line = re.sub(f'\\[({marks})\\]\\[/\\1\\]', '', line)
             newlines.append(line)
         return '\n'.join(newlines)
 
-- 
2.43.0


From 2db3ffce5114b209be78ef6315422e5ae3ed97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 30/49] fix: use only comments beginning with a title between
 tildes as scene titles

---
 src/pywriter/odt_r/odt_r_manuscript.py | 9 ++++-----
 src/pywriter/odt_r/odt_r_scenedesc.py  | 9 +++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 9fcb253..fa24817 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import re
 from pywriter.pywriter_globals import *
 from pywriter.odt_r.odt_r_formatted import OdtRFormatted
 from pywriter.model.splitter import Splitter
@@ -36,12 +37,10 @@ class OdtRManuscript(OdtRFormatted):
             if not self._lines:
                 # Comment is at scene start
                 pass
-            if self._SC_TITLE_BRACKET in data:
+            comment = data.strip()
+            if re.match(f'{self._SC_TITLE_BRACKET}.+?{self._SC_TITLE_BRACKET}', comment, re.DOTALL):
                 # Comment is marked as a scene title
-                try:
-                    self.novel.scenes[self._scId].title = data.split(self._SC_TITLE_BRACKET)[1].strip()
-                except:
-                    pass
+                self.novel.scenes[self._scId].title = comment.split(self._SC_TITLE_BRACKET)[1].strip()
                 return
 
             self._lines.append(f'{self._COMMENT_START}{data.strip()}{self._COMMENT_END}')
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..b580512 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import re
 from pywriter.pywriter_globals import *
 from pywriter.odt_r.odt_reader import OdtReader
 
@@ -49,10 +50,10 @@ class OdtRSceneDesc(OdtReader):
                     try:
                         scTitle, scContent = text.split(
                             sep=self._COMMENT_END, maxsplit=1)
-                        if self._SC_TITLE_BRACKET in scTitle:
-                            self.novel.scenes[self._scId].title = scTitle.split(
-                                self._SC_TITLE_BRACKET)[1].strip()
-                        text = scContent
+                        scTitle = scTitle[len(self._COMMENT_START):].strip()
+                        if re.match(f'{self._SC_TITLE_BRACKET}.+?{self._SC_TITLE_BRACKET}', scTitle, re.DOTALL):
+                            self.novel.scenes[self._scId].title = scTitle.split(self._SC_TITLE_BRACKET)[1].strip()
+                            text = scContent
                     except:
                         pass
                 self.novel.scenes[self._scId].desc = text.rstrip()
-- 
2.43.0


From 2dc87c18b586581d6eb01b5004f83aa3252c233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 31/49] fix: do not insert the formatting of comments into the
 scenes

---
 src/pywriter/odt_r/odt_parser.py | 34 ++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 7ab0d63..14394fb 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -192,24 +192,28 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is None:
+                # Comments do not have any formatting.
+                if style in self._emTags:
+                    self._span.append('em')
+                    self._client.handle_starttag('em', [()])
+                if style in self._strongTags:
+                    self._span.append('strong')
+                    self._client.handle_starttag('strong', [()])
         elif name == 'text:span':
             self._span.append(None)
             # A span can open any number of tags. They are all closed at its end.
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
-            if style in self._languageTags:
-                self._span.append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            if self._commentParagraphCount is None:
+                # Comments do not have any formatting.
+                if style in self._emTags:
+                    self._span.append('em')
+                    self._client.handle_starttag('em', [()])
+                if style in self._strongTags:
+                    self._span.append('strong')
+                    self._client.handle_starttag('strong', [()])
+                if style in self._languageTags:
+                    self._span.append('lang')
+                    self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
-- 
2.43.0


From c730874859eff8cbd3698e3a56ee102d74d36c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 32/49] fix: import repeated blanks, tabs and line breaks

---
 src/pywriter/odt_r/odt_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 14394fb..988dd85 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -249,5 +249,9 @@ class OdtParser(sax.ContentHandler):
                     locale = lngCode
                 self._languageTags[self._style] = locale
         elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+            self.characters(' ' * int(xmlAttributes.get('text:c', '1')))
+        elif name == 'text:tab':
+            self.characters('\t')
+        elif name == 'text:line-break':
+            self.characters('\n')
 
-- 
2.43.0


From b7634d04973879479ede5857e4805e504f865747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 33/49] fix: detect markers and headings in text delivered in
 chunks

---
 src/pywriter/odt_r/odt_parser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 988dd85..3d34cdd 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -23,6 +23,9 @@ class OdtParser(sax.ContentHandler):
       
     """
 
+    _STRUCTURE = ('text:p', 'text:h', 'text:span', 'text:section', 'text:list-item', 'office:annotation')
+    # elements that divide the text
+
     def __init__(self, client):
         super().__init__()
         self._emTags = ['Emphasis']
@@ -38,6 +41,7 @@ class OdtParser(sax.ContentHandler):
         self._list = False
         self._span = []
         self._style = None
+        self._text = ''
         self._client = client
 
     def feed_file(self, filePath):
@@ -111,16 +115,17 @@ class OdtParser(sax.ContentHandler):
         if self._commentParagraphCount is not None:
             if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
-        elif self._paragraph:
-            self._client.handle_data(content)
-        elif self._heading is not None:
-            self._client.handle_data(content)
+        elif self._paragraph or self._heading is not None:
+            # The SAX parser may deliver contiguous text in several chunks.
+            self._text = f'{self._text}{content}'
 
     def endElement(self, name):
         """Signals the end of an element in non-namespace mode.
         
         Overrides the xml.sax.ContentHandler method     
         """
+        if name in self._STRUCTURE:
+            self._pass_text()
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
@@ -157,6 +162,12 @@ class OdtParser(sax.ContentHandler):
         elif name == 'style:style':
             self._style = None
 
+    def _pass_text(self):
+        """Pass the text collected so far to the client."""
+        if self._text:
+            self._client.handle_data(self._text)
+            self._text = ''
+
     def startElement(self, name, attrs):
         """Signals the start of an element in non-namespace mode.
         
@@ -167,6 +178,8 @@ class OdtParser(sax.ContentHandler):
             attrKey, attrValue = attribute
             xmlAttributes[attrKey] = attrValue
         style = xmlAttributes.get('text:style-name', '')
+        if name in self._STRUCTURE:
+            self._pass_text()
         if name == 'text:p':
             param = [()]
             if style in self._languageTags:
-- 
2.43.0


From 58c128651ca2ded32a051dac42bf299d0f8fcfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 34/49] fix: keep the text behind footnotes when importing
 documents

---
 src/pywriter/odt_r/odt_parser.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 3d34cdd..22bc120 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -34,10 +34,9 @@ class OdtParser(sax.ContentHandler):
         self._languageTags = {}
         self._headingTags = {}
         self._heading = None
-        self._paragraph = False
+        self._paragraphs = []
         self._commentParagraphCount = None
         self._commentParagraph = False
-        self._blockquote = False
         self._list = False
         self._span = []
         self._style = None
@@ -115,7 +114,7 @@ class OdtParser(sax.ContentHandler):
         if self._commentParagraphCount is not None:
             if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
-        elif self._paragraph or self._heading is not None:
+        elif self._paragraphs or self._heading is not None:
             # The SAX parser may deliver contiguous text in several chunks.
             self._text = f'{self._text}{content}'
 
@@ -132,15 +131,8 @@ class OdtParser(sax.ContentHandler):
                     tag = self._span.pop()
                     if tag is not None:
                         self._client.handle_endtag(tag)
-                if self._blockquote:
-                    self._client.handle_endtag('blockquote')
-                    self._blockquote = False
-                elif self._heading:
-                    self._client.handle_endtag(self._heading)
-                    self._heading = None
-                else:
-                    self._client.handle_endtag('p')
-                self._paragraph = False
+                # Paragraphs may be nested, e.g. if there are footnotes.
+                self._client.handle_endtag(self._paragraphs.pop())
             else:
                 self._commentParagraph = False
         elif name == 'text:span':
@@ -191,20 +183,19 @@ class OdtParser(sax.ContentHandler):
                 self._commentParagraph = True
             elif style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
-                self._paragraph = True
-                self._blockquote = True
+                self._paragraphs.append('blockquote')
             elif style.startswith('Heading'):
-                self._heading = f'h{style[-1]}'
-                self._client.handle_starttag(self._heading, [()])
+                self._paragraphs.append(f'h{style[-1]}')
+                self._client.handle_starttag(self._paragraphs[-1], [()])
             elif style in self._headingTags:
-                self._heading = self._headingTags[style]
-                self._client.handle_starttag(self._heading, [()])
+                self._paragraphs.append(self._headingTags[style])
+                self._client.handle_starttag(self._paragraphs[-1], [()])
             elif self._list:
                 self._client.handle_starttag('li', [()])
-                self._paragraph = True
+                self._paragraphs.append('p')
             else:
                 self._client.handle_starttag('p', param)
-                self._paragraph = True
+                self._paragraphs.append('p')
             if self._commentParagraphCount is None:
                 # Comments do not have any formatting.
                 if style in self._emTags:
-- 
2.43.0


From 7dd3b8e413d226ab474dc41e60c81759d1e6b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 35/49] fix: keep the language of list items when importing
 documents

---
 src/pywriter/odt_r/odt_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 22bc120..e50b66d 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -192,6 +192,8 @@ class OdtParser(sax.ContentHandler):
                 self._client.handle_starttag(self._paragraphs[-1], [()])
             elif self._list:
                 self._client.handle_starttag('li', [()])
+                if style in self._languageTags:
+                    self._client.handle_starttag('lang', param)
                 self._paragraphs.append('p')
             else:
                 self._client.handle_starttag('p', param)
-- 
2.43.0


From 0580e41d0fa9a1f8d508d6e850fd5d13b7ed73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 36/49] fix: do not join quotations with the next paragraph
 when importing descriptions

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index d565276..c6d7d37 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,7 +33,7 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..05629d1 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index b3633ea..be9c0bc 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 6ac6cc2..c2b9a72 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index b580512..2bafa33 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -59,7 +59,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
-- 
2.43.0


From 855837bc9d10094d23130709f4135b18d4d2045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 37/49] fix: keep quotations at the end of outline descriptions

---
 src/pywriter/odt_r/odt_r_outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..19cbf69 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-- 
2.43.0


From dcb5e8de7109883e2bf07e44818fb5d181183d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 38/49] fix: keep quotations and list items at the beginning of
 imported scenes

---
 src/pywriter/odt_r/odt_r_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 7f49d21..9c8a4fb 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -129,7 +129,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'blockquote', 'li'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -139,6 +139,7 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+        if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
                     language = attrs[0][1]
-- 
2.43.0


From 5ccdc725b1191b259c681104b76a35ba834a5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 39/49] fix: read tables whose last columns are repeated cells

---
 src/pywriter/ods_r/ods_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..4314250 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -57,6 +57,10 @@ class OdsParser:
             cells = []
             i = 0
             for cell in row.findall('table:table-cell', namespaces):
+                if i >= cellsPerRow:
+                    # The cell is excess, created by Calc.
+                    break
+
                 content = ''
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
@@ -72,9 +76,6 @@ class OdsParser:
                     break
 
                 i += 1
-                if i >= cellsPerRow:
-                    # The cell is excess, created by Calc.
-                    break
 
                 # Add repeated cells.
                 attribute = cell.get(f'{{{namespaces["table"]}}}number-columns-repeated')
-- 
2.43.0


From 6eeccb7b943ee8470aa9a34fb85fd7b7d5091f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 40/49] fix: do not keep the path of the previous file if a
 project cannot be created

---
 src/pywriter/converter/yw_cnv_ui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pywriter/converter/yw_cnv_ui.py b/src/pywriter/converter/yw_cnv_ui.py
index fff7987..f055065 100644
--- a/src/pywriter/converter/yw_cnv_ui.py
+++ b/src/pywriter/converter/yw_cnv_ui.py
@@ -87,6 +87,7 @@ class YwCnvUi:
         """
         self.ui.set_info_what(
             _('Create a yWriter project file from {0}\nNew project: "{1}"').format(source.DESCRIPTION, norm_path(target.filePath)))
+        self.newFile = None
         if os.path.isfile(target.filePath):
             self.ui.set_info_how(f'!{_("File already exists")}: "{norm_path(target.filePath)}".')
         else:
-- 
2.43.0


From 47747ba6e989f8671d808617fadf9dd3f8ca901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 41/49] fix: declare languages missing in the project's list

---
 src/pywriter/model/novel.py           | 5 +++--
 src/pywriter/odt_w/odt_w_formatted.py | 3 +--
 src/pywriter/yw/yw7_file.py           | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index b1be114..be98a69 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -138,7 +138,7 @@ class Novel(BasicElement):
     def get_languages(self):
         """Determine the languages used in the document.
         
-        Populate the self.languages list with all language codes found in the scene contents.        
+        Complete the self.languages list with all language codes found in the scene contents.        
         Example:
         - language markup: 'Standard text [lang=en-AU]Australian text[/lang=en-AU].'
         - language code: 'en-AU'
@@ -158,7 +158,8 @@ class Novel(BasicElement):
                     yield m.group(1)
                     m = LANGUAGE_TAG.search(text)
 
-        self.languages = []
+        if self.languages is None:
+            self.languages = []
         for scId in self.scenes:
             text = self.scenes[scId].sceneContent
             if text:
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 9d6c5fa..d292dd3 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -43,8 +43,7 @@ class OdtWFormatted(OdtWriter):
         
         Extends the superclass method.
         """
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
         return super().write()
 
     def _balance_markup(self, text, tags):
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5e06ed5..b6a4605 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -191,8 +191,7 @@ class Yw7File(File):
         if self.is_locked():
             raise Error(f'{_("yWriter seems to be open. Please close first")}.')
 
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
 
         #--- Get custom instance variables.
         for scId in self.novel.scenes:
-- 
2.43.0


From e5ed855ba0d7b190f6f362c411b7ba64b0298aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:54 +0000
Subject: [PATCH 42/49] fix: read and write projects having variables without
 title

---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index b6a4605..036ceea 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1001,7 +1001,7 @@ class Yw7File(File):
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
                 prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text
+                title = xmlProjectvar.findtext('Title', '')
 
                 # Collect language codes.
                 if title.startswith('lang='):
@@ -1390,7 +1390,7 @@ class Yw7File(File):
         try:
             for xmlProjectvar in root.find('PROJECTVARS'):
                 if xmlProjectvar.find('Title') is not None:
-                    title = xmlProjectvar.find('Title').text
+                    title = xmlProjectvar.findtext('Title')
                     if title == 'Language':
                         if xmlProjectvar.find('Desc') is not None:
                             self.novel.languageCode = xmlProjectvar.find('Desc').text
-- 
2.43.0


From 5ede003f4c961fadc992442cec2fc87d67e33f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 43/49] fix: save scene starts with single parts cleared

---
 src/pywriter/yw/yw7_file.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 036ceea..7a27672 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -395,15 +395,11 @@ class Yw7File(File):
                 xmlScene.remove(xmlScene.find('AppendToPrev'))
 
             #--- Write scene start.
-            if (prjScn.date is not None) and (prjScn.time is not None):
-                separator = ' '
-                dateTime = f'{prjScn.date}{separator}{prjScn.time}'
+            if prjScn.date and (prjScn.time is not None):
+                # A specific date always comes with a time.
+                dateTime = f'{prjScn.date} {prjScn.time or "00:00:00"}'
 
-                # Remove scene start data from XML, if date and time are empty strings.
-                if dateTime == separator:
-                    remove_date_time()
-
-                elif xmlScene.find('SpecificDateTime') is not None:
+                if xmlScene.find('SpecificDateTime') is not None:
                     if dateTime.count(':') < 2:
                         dateTime = f'{dateTime}:00'
                     xmlScene.find('SpecificDateTime').text = dateTime
@@ -432,13 +428,15 @@ class Yw7File(File):
 
                     if xmlScene.find('SpecificDateMode') is not None:
                         xmlScene.remove(xmlScene.find('SpecificDateMode'))
-                    if prjScn.day is not None:
+                    if prjScn.day:
                         try:
                             xmlScene.find('Day').text = prjScn.day
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Day').text = prjScn.day
-                    if prjScn.time is not None:
-                        hours, minutes, __ = prjScn.time.split(':')
+                    elif prjScn.day is not None and xmlScene.find('Day') is not None:
+                        xmlScene.remove(xmlScene.find('Day'))
+                    if prjScn.time:
+                        hours, minutes = prjScn.time.split(':')[:2]
                         try:
                             xmlScene.find('Hour').text = hours
                         except(AttributeError):
@@ -447,6 +445,11 @@ class Yw7File(File):
                             xmlScene.find('Minute').text = minutes
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Minute').text = minutes
+                    elif prjScn.time is not None:
+                        if xmlScene.find('Hour') is not None:
+                            xmlScene.remove(xmlScene.find('Hour'))
+                        if xmlScene.find('Minute') is not None:
+                            xmlScene.remove(xmlScene.find('Minute'))
 
             #--- Write scene duration.
             if prjScn.lastsDays is not None:
@@ -1520,7 +1523,7 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except (TypeError, ValueError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
-- 
2.43.0


From 8bb5526c8e42baf775ad944c002678756312ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 44/49] fix: export the names of related elements beside
 untitled ones

---
 src/pywriter/file/file_export.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index a0bed2d..ad6fa44 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -429,7 +429,7 @@ class FileExport(File):
             # viepoint characters
             sChList = []
             for crId in self.novel.scenes[scId].characters:
-                sChList.append(self.novel.characters[crId].title)
+                sChList.append(self.novel.characters[crId].title or '')
             sceneChars = list_to_string(sChList, divider=self._DIVIDER)
             viewpointChar = sChList[0]
         except:
@@ -440,7 +440,7 @@ class FileExport(File):
         if self.novel.scenes[scId].locations is not None:
             sLcList = []
             for lcId in self.novel.scenes[scId].locations:
-                sLcList.append(self.novel.locations[lcId].title)
+                sLcList.append(self.novel.locations[lcId].title or '')
             sceneLocs = list_to_string(sLcList, divider=self._DIVIDER)
         else:
             sceneLocs = ''
@@ -449,7 +449,7 @@ class FileExport(File):
         if self.novel.scenes[scId].items is not None:
             sItList = []
             for itId in self.novel.scenes[scId].items:
-                sItList.append(self.novel.items[itId].title)
+                sItList.append(self.novel.items[itId].title or '')
             sceneItems = list_to_string(sItList, divider=self._DIVIDER)
         else:
             sceneItems = ''
-- 
2.43.0


From f56595915709475ca402125cfe5c049b81ee4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 45/49] fix: report projects with missing or invalid data as an
 error

---
 src/pywriter/yw/yw7_file.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 7a27672..c556785 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -161,14 +161,19 @@ class Yw7File(File):
             xmlText = None
             # saving memory
         self.tree = ET.ElementTree(root)
-        self._read_project(root)
-        self._read_locations(root)
-        self._read_items(root)
-        self._read_characters(root)
-        self._read_projectvars(root)
-        self._read_projectnotes(root)
-        self._read_scenes(root)
-        self._read_chapters(root)
+        try:
+            self._read_project(root)
+            self._read_locations(root)
+            self._read_items(root)
+            self._read_characters(root)
+            self._read_projectvars(root)
+            self._read_projectnotes(root)
+            self._read_scenes(root)
+            self._read_chapters(root)
+        except Exception as ex:
+            # The file is not a yWriter project.
+            raise Error(f'{_("Can not process file")} - {str(ex)}')
+
         self.adjust_scene_types()
 
         #--- Set custom instance variables.
-- 
2.43.0


From aaac9932d7d3b3a1f26d63efb528a6b249c5c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 46/49] fix: reading a project again does not duplicate its
 languages

---
 src/pywriter/yw/yw7_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c556785..75f9645 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1412,7 +1412,8 @@ class Yw7File(File):
                             __, langCode = title.split('=')
                             if self.novel.languages is None:
                                 self.novel.languages = []
-                            self.novel.languages.append(langCode)
+                            if not langCode in self.novel.languages:
+                                self.novel.languages.append(langCode)
                         except:
                             pass
         except:
-- 
2.43.0


From 47e8f4ae0c0001f9950088901bc53ee9d846ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 47/49] fix: reading a project again does not keep scenes
 removed from the file

---
 src/pywriter/yw/yw7_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 75f9645..d61fec1 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1421,6 +1421,8 @@ class Yw7File(File):
 
     def _read_scenes(self, root):
         """ Read attributes at scene level from the xml element tree."""
+        self.novel.scenes = {}
+        # This is necessary for re-reading.
         for xmlScene in root.find('SCENES'):
             scId = xmlScene.find('ID').text
             self.novel.scenes[scId] = Scene()
-- 
2.43.0


From a21f6aa74d13d07fd76756bea07c24f89c6e283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:56 +0000
Subject: [PATCH 48/49] fix: text between the sections of a character sheet
 leaves no blank lines in the character's texts

---
 src/pywriter/odt_r/odt_r_characters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 05629d1..b17d963 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -56,7 +56,7 @@ class OdtRCharacters(OdtReader):
 
         Overrides the superclass method.
         """
-        if self._crId is not None:
+        if self._section is not None:
             if tag == 'div':
                 if self._section == 'desc':
                     self.novel.characters[self._crId].desc = ''.join(self._lines).rstrip()
-- 
2.43.0


From 4a4533d582bcb8e0d3624c7360eb25761f42d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:00 +0000
Subject: [PATCH 49/49] fix: the sections of a character sheet belong to the
 character with their ID, also if the description is missing

---
 src/pywriter/odt_r/odt_r_characters.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index b17d963..342eb63 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -88,18 +88,13 @@ class OdtRCharacters(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
-                if attrs[0][1].startswith('CrID_desc'):
-                    self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
-                    if not self._crId in self.novel.characters:
-                        self.novel.srtCharacters.append(self._crId)
-                        self.novel.characters[self._crId] = Character()
-                    self._section = 'desc'
-                elif attrs[0][1].startswith('CrID_bio'):
-                    self._section = 'bio'
-                elif attrs[0][1].startswith('CrID_goals'):
-                    self._section = 'goals'
-                elif attrs[0][1].startswith('CrID_notes'):
-                    self._section = 'notes'
+                for section in ('desc', 'bio', 'goals', 'notes'):
+                    if attrs[0][1].startswith(f'CrID_{section}'):
+                        self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
+                        if not self._crId in self.novel.characters:
+                            self.novel.srtCharacters.append(self._crId)
+                            self.novel.characters[self._crId] = Character()
+                        self._section = section
         elif tag == 's':
             self._lines.append(' ')
 
-- 
2.43.0

