From 368eae7f4f8420f72705cd8fb1f0f9b2d7b39d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 01/36] fix: STLFile::save reports write errors

---
 src/STLFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..74fcb69 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -58,7 +58,10 @@ namespace STLFile
 
 			f.write((char*)(&zero), 2);
 		}
-		return true;
+
+		// report write errors, including the ones detected while flushing
+		f.close();
+		return f.good();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	bool load(const string& filename, Mesh& to_mesh)
-- 
2.43.0


From f64a343e5ed1238b21a1c1e2c72f48b0865c59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 02/36] fix: OBJFile::save reports write errors

---
 src/OBJFile.cpp | 6 +++---
 src/OBJFile.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..fb09166 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -16,8 +16,7 @@ namespace OBJFile
 			return false;
 
 		ow.write(to_mesh);
-		ow.close();
-		return true;
+		return ow.close();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	// todo add vertex aliasing on load
@@ -83,9 +82,10 @@ bool OBJWriter::is_open()
 	return _f.is_open();
 }
 
-void OBJWriter::close()
+bool OBJWriter::close()
 {
 	_f.close();
+	return _f.good();
 }
 
 void OBJWriter::write(const Mesh& to_mesh)
diff --git a/src/OBJFile.h b/src/OBJFile.h
index 4bdcd87..8517285 100644
--- a/src/OBJFile.h
+++ b/src/OBJFile.h
@@ -16,7 +16,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
-	void close();
+	bool close(); // false if something was not written
 
 	void write(const Mesh& to_mesh);
 	void write(const vector<Point3>& polyline);
-- 
2.43.0


From a480b71cc767df6c51c51e85329589b98fff383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 03/36] fix: ImageIoBmp::write reports write errors and
 unsupported plane counts

---
 src/ImageIoBmp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..50f5588 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -124,6 +124,10 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 {
 	assert(pImage != 0);
 
+	//only 8, 24 and 32 bpp images can be stored
+	if (pImage->planes() != 1 && pImage->planes() != 3 && pImage->planes() != 4)
+		return false;
+
 	//create file
 	std::fstream fbmp(sFilename.data(), std::ios::binary | std::ios::out);
 	if (!fbmp)
@@ -251,7 +255,8 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 		}
 	}
 
+	//report write errors, including the ones detected while flushing
 	fbmp.close();
-	return true;
+	return fbmp.good();
 }
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ec86c753652a911e2246325629d2fe0545cd1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 04/36] fix: STLFile::load refuses truncated or unreadable
 files

---
 src/STLFile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 74fcb69..13b42db 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -78,6 +78,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || nbFacet < 0)
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -105,6 +107,13 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			// truncated or unreadable file
+			if (!f)
+			{
+				to_mesh.clear();
+				return false;
+			}
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From a2404bd44d1f22ce2da14e4d99b808fe1409f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 05/36] fix: OBJFile::load refuses malformed records and read
 errors, no endless loop

---
 src/OBJFile.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index fb09166..32802fb 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -27,10 +27,10 @@ namespace OBJFile
 			return false;
 
 		to_mesh.clear();
-		while (!f.eof())
+		string sType, sLine;
+		while (getline(f, sLine))
 		{
-			string sType, sLine;
-			getline(f, sLine);
+			sType.clear();
 
 			if (sLine.size() == 0)
 				continue;
@@ -42,7 +42,11 @@ namespace OBJFile
 			if (sType == "v")
 			{
 				double x, y, z;
-				ss >> x >> y >> z;
+				if (!(ss >> x >> y >> z))
+				{
+					to_mesh.clear();
+					return false;
+				}
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
@@ -50,12 +54,24 @@ namespace OBJFile
 			if (sType == "f")
 			{
 				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
+				int nbV = to_mesh.nb_vertices();
+				if (!(ss >> i1 >> i2 >> i3) || i1 < 1 || i2 < 1 || i3 < 1 || i1 > nbV || i2 > nbV || i3 > nbV)
+				{
+					to_mesh.clear();
+					return false;
+				}
 
 				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
 			}
 		}
 
+		// the loop must have stopped at the end of the file, not on a read error
+		if (f.bad())
+		{
+			to_mesh.clear();
+			return false;
+		}
+
 		return true;
 	}
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3b2ebe7d9672b7751b79280b18f25e3e3e96939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 06/36] fix: OBJWriter polyline indices, vertex count on reuse,
 reopening

---
 src/OBJFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 32802fb..ed490fe 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -90,6 +90,10 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	if (_f.is_open())
+		_f.close();
+
+	_verticesCount = 0; // indices restart with each file
 	_f.open(filename);
 }
 
@@ -157,8 +161,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From 745f121ade0d9b943ddf8058d48e13108e4a76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 07/36] fix: StepWriter finishes the previous document on
 reopening and reports write errors

---
 src/StepFile.cpp | 8 ++++++--
 src/StepFile.h   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..c2b5330 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -49,6 +49,9 @@ StepWriter::~StepWriter()
 
 void StepWriter::open(const string& filename)
 {
+	if (_f.is_open())
+		close();
+
 	_iItemIndent = 10;
 	_sNameFile = filename;
 	_f.open(filename);
@@ -60,13 +63,14 @@ bool StepWriter::is_open()
 	return _f.is_open();
 }
 
-void StepWriter::close()
+bool StepWriter::close()
 {
 	if (!_f.is_open())
-		return;
+		return false;
 
 	write_footer();
 	_f.close();
+	return _f.good();
 }
 
 void StepWriter::write_cartesian_point(const Point3& p)
diff --git a/src/StepFile.h b/src/StepFile.h
index 5eb0d04..3a8903e 100644
--- a/src/StepFile.h
+++ b/src/StepFile.h
@@ -24,7 +24,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
-	void close();
+	bool close(); // false if something was not written
 
 	void write(const NurbsSurface& n);
 	void write(const NurbsSolid& n);
-- 
2.43.0


From b8efb6eccff481c3674f676c287b7d18aea63ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 08/36] fix: OBJ and STEP files do not depend on the global C++
 locale

---
 src/OBJFile.cpp  | 3 +++
 src/StepFile.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index ed490fe..f20b77d 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -2,6 +2,7 @@
 #include <string>
 #include <sstream>
 #include <iostream>
+#include <locale>
 using namespace std;
 
 #include "OBJFile.h"
@@ -36,6 +37,7 @@ namespace OBJFile
 				continue;
 
 			stringstream ss(sLine);
+			ss.imbue(locale::classic()); // the file format does not depend on the global locale
 			ss >> sType;
 
 			// read vertice
@@ -80,6 +82,7 @@ namespace OBJFile
 OBJWriter::OBJWriter()
 {
 	_verticesCount = 0;
+	_f.imbue(locale::classic()); // the file format does not depend on the global locale
 }
 
 OBJWriter::~OBJWriter()
diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index c2b5330..26804dc 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <locale>
 #include <string>
 #include <vector>
 using namespace std;
@@ -15,6 +16,7 @@ namespace StepFile
 StepWriter::StepWriter() :
 	_iItemIndent(10)
 {
+	_f.imbue(locale::classic()); // the file format does not depend on the global locale
 }
 
 void StepWriter::write_header()
-- 
2.43.0


From 0aa24913b868fdd150be2c9524565c383b8bcc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 09/36] fix: ImageIoBmp::read checks the header against the
 file, 8 and 24 bpp line padding

---
 src/ImageIoBmp.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 50f5588..3902640 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -46,8 +46,25 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	//format not handled for now
+	if (sBPP != 8 && sBPP != 24 && sBPP != 32)
+		return false;
+
+	//check that all the pixels are in the file, before allocating them
 	int iNbByte = sBPP >> 3;
+	long long iLineSize = ((long long)iWidth * iNbByte + 3) / 4 * 4; //lines are padded to 4 bytes
+	long long iPixelsStart = (long long)fbmp.tellg() + (sBPP == 8 ? 256 * 4 : 0);
+	fbmp.seekg(0, std::ios::end);
+	long long iPixelsSize = (long long)fbmp.tellg() - iPixelsStart;
+	fbmp.seekg(54, std::ios::beg);
+	if (!fbmp || iWidth < 0 || iHeight < 0 || iPixelsSize < 0)
+		return false;
+	if (iHeight > 0 && iLineSize > iPixelsSize / iHeight)
+		return false;
+
 	pImage->resize(iWidth, iHeight, iNbByte);
+	if (pImage->size() == 0)
+		return true;
 
 	if (sBPP == 32)
 	{
@@ -68,14 +85,13 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 				pLineY[4 * iC] = cTmpR;
 			}
 		}
-		return true;
+		return fbmp.good();
 	}
 
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
-		int iPack = iLineWidth - iLineWidthPerfect;
+		int iPack = (int)(iLineSize - iLineWidthPerfect);
 
 		// read data buffer
 		unsigned char cTmp[3] = { 0 }, * pLineY, cTmpR;
@@ -94,13 +110,12 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return fbmp.good();
 	}
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
-		int iPack = iLineWidth - iWidth;
+		int iPack = (int)(iLineSize - iWidth);
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
 		//read lut, but do not use:
@@ -113,7 +128,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 			fbmp.read((char*)pLineY, iWidth);
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return fbmp.good();
 	}
 
 	//format not handled for now
-- 
2.43.0


From 3e309bcca51663fb82c2dba1c8d97864c559dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 10/36] fix: Mesh assignment releases the old kernel, self
 assignment and self add_mesh

---
 src/Mesh.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..654aaa7 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,7 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = nullptr;
 	this->operator=(m);
 }
 
@@ -109,9 +110,12 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
-	clear();
-	add_mesh(m);
+	if (this == &m)
+		return *this;
+
+	Mesh copy; // takes and releases the previous kernel
+	copy.add_mesh(m);
+	swap(_pKernel, copy._pKernel);
 	set_color(m.get_color());
 	return *this;
 }
@@ -124,7 +128,9 @@ void Mesh::add_mesh(const Mesh& f)
 	_iColor = f.get_color();
 
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbTriangles = f.nb_triangles(); // f may be *this
+	int iNbNewVertices = f.nb_vertices();
+	for (int i = 0; i < iNbNewVertices; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -132,7 +138,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTriangles; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From 5e1c2321b513afe0e8303dbb09d01d15aa4d68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 11/36] fix: Face and Solid copies and assignments copy

---
 src/Face.cpp  | 4 +++-
 src/Solid.cpp | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..679c8cd 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,10 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	vector<Face> faces = other._faces;
+	_mesh = other._mesh;
+	_faces.swap(faces);
+	return *this;
 }
 
 
-- 
2.43.0


From 2c928ff48178ab6ac42b7766286036d2faa50236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 12/36] fix: split_edge_with_vertex keeps the triangle vertices
 when rotating them

---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 654aaa7..216dcd5 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
-- 
2.43.0


From ae9bd1293cca266aac33cd2398470a55d2a6bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 13/36] fix: NurbsCurve and NurbsSurface evaluate() do not
 share scratch buffers

---
 src/NurbsCurve.cpp   | 6 ++++--
 src/NurbsCurve.h     | 3 ---
 src/NurbsSurface.cpp | 9 ++++-----
 src/NurbsSurface.h   | 5 -----
 4 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..88845ad 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -26,8 +26,6 @@ void NurbsCurve::clear()
 void NurbsCurve::set_degree(int degree)
 {
 	_degree = degree;
-	_tempPoints.resize(degree + 1);
-	_tempWeights.resize(degree + 1);
 }
 
 int NurbsCurve::degree() const
@@ -238,6 +236,10 @@ void NurbsCurve::evaluate(double u, Point3& p) const
 
 	int knotIndex = find_knot_span(_knots, u);
 
+	// local buffers: a const curve can be evaluated by several threads
+	vector<Point3> _tempPoints(_degree + 1);
+	vector<double> _tempWeights(_degree + 1);
+
 	for (int j = 0; j < _degree + 1; j++)
 	{
 		int idx = j + knotIndex - _degree;
diff --git a/src/NurbsCurve.h b/src/NurbsCurve.h
index fc77947..8b36d97 100644
--- a/src/NurbsCurve.h
+++ b/src/NurbsCurve.h
@@ -50,9 +50,6 @@ private:
 	vector <double> _weights;
 	vector <Point3> _points;
 	int _iNbPoints;
-
-	mutable vector<Point3> _tempPoints;
-	mutable vector<double> _tempWeights;
 };
 ///////////////////////////////////////////////////////////////////////////
 
diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..106bf37 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -34,11 +34,6 @@ void NurbsSurface::set_degree(int degreeU, int degreeV)
 {
 	_degreeU = degreeU;
 	_degreeV = degreeV;
-
-	_tempPointsU.resize(degreeU + 1);
-	_tempPointsV.resize(degreeV + 1);
-	_tempWeightsU.resize(degreeU + 1);
-	_tempWeightsV.resize(degreeV + 1);
 }
 
 int NurbsSurface::degree_u() const
@@ -395,6 +390,10 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 	assert(iNbCtrlPointsV == _knotsV.size() - _degreeV - 1);
 	assert(iNbCtrlPointsU * iNbCtrlPointsV == _points.size());
 
+	// local buffers: a const surface can be evaluated by several threads
+	vector<Point3> _tempPointsU(_degreeU + 1), _tempPointsV(_degreeV + 1);
+	vector<double> _tempWeightsU(_degreeU + 1), _tempWeightsV(_degreeV + 1);
+
 	//tensor product
 	for (int vi = 0; vi < _degreeV + 1; vi++)
 	{
diff --git a/src/NurbsSurface.h b/src/NurbsSurface.h
index c735cde..6a2cafe 100644
--- a/src/NurbsSurface.h
+++ b/src/NurbsSurface.h
@@ -72,11 +72,6 @@ private:
 	vector <double> _knotsU, _knotsV;
 	vector <double> _weights;
 	vector <Point3> _points;
-
-	mutable vector<Point3> _tempPointsU;
-	mutable vector<Point3> _tempPointsV;
-	mutable vector<double> _tempWeightsU;
-	mutable vector<double> _tempWeightsV;
 };
 ///////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From c992f3d8c81a25b897b927484a3d246ce1e2370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 14/36] fix: knot insertion and degree elevation change the
 object as a whole

---
 src/NurbsCurve.cpp   | 20 ++++++++++++++------
 src/NurbsSurface.cpp | 26 ++++++++++++++------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index 88845ad..eafe6b2 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -223,9 +223,13 @@ void NurbsCurve::insert_knot(double u)
 		p[i] /= w[i];
 
 	k.insert(k.begin() + indexU + 1, u);
-	set_knots(k);
-	set_weights(w);
-	set_points(p);
+	scale_knots(k);
+
+	// the curve changes as a whole, even when out of memory
+	_knots.swap(k);
+	_weights.swap(w);
+	_points.swap(p);
+	_iNbPoints = _points.size();
 }
 
 void NurbsCurve::evaluate(double u, Point3& p) const
@@ -372,9 +376,13 @@ bool NurbsCurve::degree_elevation()
 	for (int i = 0; i < newPoints.size(); i++)
 		newPoints[i] /= newWeights[i];
 
-	set_knots(elevatedKnots);
-	set_points(newPoints);
-	set_weights(newWeights);
+	scale_knots(elevatedKnots);
+
+	// the curve changes as a whole, even when out of memory
+	_knots.swap(elevatedKnots);
+	_points.swap(newPoints);
+	_weights.swap(newWeights);
+	_iNbPoints = _points.size();
 	set_degree(_degree + 1);
 	return true;
 }
diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 106bf37..4386c96 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -333,10 +333,7 @@ void NurbsSurface::from_u_curves(const vector<NurbsCurve>& vu) //reuse V knots a
 	if (vu.empty())
 		return;
 
-	//update knots
-	set_knots_u(vu[0].knots());
-
-	//update_points
+	vector<double> knots = vu[0].knots();
 	vector<Point3> vp;
 	vector<double> vw;
 	for (int v = 0; v < vu.size(); v++)
@@ -344,8 +341,12 @@ void NurbsSurface::from_u_curves(const vector<NurbsCurve>& vu) //reuse V knots a
 		vp.insert(vp.end(), vu[v].points().begin(), vu[v].points().end());
 		vw.insert(vw.end(), vu[v].weights().begin(), vu[v].weights().end());
 	}
-	set_points(vp, vu[0].nb_points(), nb_points_v());
-	set_weights(vw);
+
+	// the surface changes as a whole, even when out of memory
+	_knotsU.swap(knots);
+	_points.swap(vp);
+	_weights.swap(vw);
+	_iNbPointsU = vu[0].nb_points();
 	set_degree(vu[0].degree(), degree_v());
 }
 
@@ -354,10 +355,7 @@ void NurbsSurface::from_v_curves(const vector<NurbsCurve>& vv) //reuse U knots a
 	if (vv.empty())
 		return;
 
-	//update knots
-	set_knots_v(vv[0].knots());
-
-	//update_points
+	vector<double> knots = vv[0].knots();
 	int nbPointsV = vv[0].nb_points();
 	vector<Point3> vp(nb_points_u() * nbPointsV);
 	vector<double> vw(nb_points_u() * nbPointsV);
@@ -371,8 +369,12 @@ void NurbsSurface::from_v_curves(const vector<NurbsCurve>& vv) //reuse U knots a
 			vw[u + v * nb_points_u()] = nv.weights()[v];
 		}
 	}
-	set_points(vp, nb_points_u(), vv[0].nb_points());
-	set_weights(vw);
+
+	// the surface changes as a whole, even when out of memory
+	_knotsV.swap(knots);
+	_points.swap(vp);
+	_weights.swap(vw);
+	_iNbPointsV = nbPointsV;
 	set_degree(degree_u(), vv[0].degree());
 }
 
-- 
2.43.0


From 71fdb47e9c1fbc69851409f7ed399b9523fcf02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 15/36] fix: NurbsSurface clear() and set_equals_weights()
 forget the previous state

---
 src/NurbsSurface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 4386c96..8c5c230 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
@@ -125,7 +127,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From 56d37a2e2a0161e1a2d577b3c6e83e86145bc8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 16/36] fix: Image::resize keeps a consistent size when out of
 memory

---
 src/Image.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..63cfe1d 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -44,10 +44,11 @@ public:
         assert(iH>=0);
         assert(iP>=0);
 
+        _data.resize((size_t)iW * (size_t)iH * (size_t)iP); // may throw, keep the old size then
+
         _iW=iW;
         _iH=iH;
         _iP=iP;
-        _data.resize((size_t)_iW * (size_t)_iH * (size_t)_iP);
     }
 
     unsigned char* data()
-- 
2.43.0


From 0eb2527d335ae1f426b0ff4f9d9ce15e2308d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 17/36] fix: Renderer lights are not leaked, RendererLight has
 a virtual destructor

---
 src/Renderer.cpp    | 2 ++
 src/RendererLight.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..5700fa1 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -42,11 +42,13 @@ Renderer::~Renderer()
 ////////////////////////////////////////////////////////////////////////////////
 void Renderer::add_ambient_light(int iAmbiantColor, double dAmbiantFactor)
 {
+	_lights.reserve(_lights.size() + 1); // so that push_back() cannot fail and leak
 	_lights.push_back(new RendererLightAmbiant(iAmbiantColor,dAmbiantFactor));
 }
 ////////////////////////////////////////////////////////////////////////////////
 void Renderer::add_diffuse_light(int iDiffuseColor,double dDiffuseFactor, const Point3& direction)
 {
+	_lights.reserve(_lights.size() + 1); // so that push_back() cannot fail and leak
 	_lights.push_back(new RendererLightDiffuse(iDiffuseColor,dDiffuseFactor, direction));
 }
 ////////////////////////////////////////////////////////////////////////////////
diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..26b5c95 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight() {}
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From 0c99bcfb503b60120eeda5d0fb1dc698131969e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 18/36] fix: SmoothMesh self assignment and self add_mesh

---
 src/SmoothMesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..dd17f68 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,7 +54,9 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTriangles = vst.nb_triangles(); // vst may be *this
+	_vst.reserve(_vst.size() + iNbTriangles);
+	for (int i = 0; i < iNbTriangles; i++)
 	{
 		_vst.push_back(vst.triangle(i));
 	}
-- 
2.43.0


From 3fbc5c7a11a7f6c61dd89fb58070f29f921a8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 19/36] fix: Image::to_double index for non square images

---
 src/Image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image.h b/src/Image.h
index 63cfe1d..dcfc70b 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -109,7 +109,7 @@ public:
         img.resize(size());
         for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
             for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+                img[colonne + ligne * height()] = (*this)((int)ligne, (int)colonne);
     }
 
 private:
-- 
2.43.0


From 5a9fe9c87c1a25545ede6963923110672604dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 20/36] fix: NurbsUtil::create_from_mesh skips the deleted
 triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..733d6e9 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From 322ed67e4a2c24db3fda2832ccc5903f4eacd287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 21/36] fix: split_edge_with_vertex splits the second triangle
 along the shared edge

---
 src/Mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 216dcd5..787f5f7 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -280,14 +280,14 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 
 	//split triangle2
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if ((iV3 == iVertex1) || (iV3 == iVertex2)) // the edge is (iVertex2,iVertex1) in an oriented mesh
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if ((iV3 == iVertex1) || (iV3 == iVertex2))
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert((iV1 == iVertex2) || (iV2 == iVertex2));
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1731c22c4a74d47fe9ea5bf3629a8570b8c14ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:25 +0000
Subject: [PATCH 22/36] fix: MeshBoolean::split_meshes splits the right
 triangles of a mesh with deleted ones

---
 src/MeshBoolean.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MeshBoolean.cpp b/src/MeshBoolean.cpp
index b3f8ab0..914c3fc 100644
--- a/src/MeshBoolean.cpp
+++ b/src/MeshBoolean.cpp
@@ -10,20 +10,24 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 	Boutside = B;
 
 	//slow, for now
+	int iOutA = -1; // the copies do not have the unlinked triangles
 	for (int i = 0; i < A.nb_triangles(); i++)
 	{
 		if (A.is_triangle_unlinked(i))
 			continue;
 
+		iOutA++;
 		Triangle3 tA;
 		A.get_triangle(i, tA);
 		BoundingBox3 bboxA(tA);
 
+		int iOutB = -1;
 		for (int j = 0; j < B.nb_triangles(); j++)
 		{
 			if (B.is_triangle_unlinked(j))
 				continue;
 
+			iOutB++;
 			Triangle3 tB;
 			B.get_triangle(j, tB);
 			BoundingBox3 bboxB(tB); // slow: we recompute the bbox each time
@@ -32,8 +36,10 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 				continue;
 
 			// triangles tA and tB, are valid, and may cut
-			Aoutside.split_triangle(i, tB);
-			Boutside.split_triangle(j, tA);
+			if (Aoutside.is_triangle_unlinked(iOutA) == false) // not already split
+				Aoutside.split_triangle(iOutA, tB);
+			if (Boutside.is_triangle_unlinked(iOutB) == false)
+				Boutside.split_triangle(iOutB, tA);
 		}
 	}
 }
-- 
2.43.0


From e52b757853ef393dd223ce977808ca70af214ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 23/36] fix: Image assignment keeps the old image when out of
 memory

---
 src/Image.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Image.h b/src/Image.h
index dcfc70b..4150725 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -15,6 +15,19 @@ public:
 	    resize(iW,iH,iP);
     }
 
+    Image(const Image&) = default;
+
+    Image& operator=(const Image& other)
+    {
+        _data = other._data; // may throw, keep the old image then
+
+        _iW = other._iW;
+        _iH = other._iH;
+        _iP = other._iP;
+
+        return *this;
+    }
+
     virtual ~Image()
     { }
 
-- 
2.43.0


From 6708c13b1395cd1ef51cf40fb84cd86bb6a5fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:25 +0000
Subject: [PATCH 24/36] fix: NURBS curve and surface assignment keeps the old
 shape when out of memory

---
 src/NurbsCurve.cpp   | 13 +++++++++++++
 src/NurbsCurve.h     |  2 ++
 src/NurbsSurface.cpp | 18 ++++++++++++++++++
 src/NurbsSurface.h   |  2 ++
 4 files changed, 35 insertions(+)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index eafe6b2..ce81b69 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -14,6 +14,19 @@ NurbsCurve::~NurbsCurve()
 {
 }
 
+NurbsCurve& NurbsCurve::operator=(const NurbsCurve& other)
+{
+	NurbsCurve n(other); // may throw, keep the old curve then
+
+	_degree = n._degree;
+	_knots.swap(n._knots);
+	_weights.swap(n._weights);
+	_points.swap(n._points);
+	_iNbPoints = n._iNbPoints;
+
+	return *this;
+}
+
 void NurbsCurve::clear()
 {
 	_degree = 0;
diff --git a/src/NurbsCurve.h b/src/NurbsCurve.h
index 8b36d97..74ae8da 100644
--- a/src/NurbsCurve.h
+++ b/src/NurbsCurve.h
@@ -11,6 +11,8 @@ class NurbsCurve
 {
 public:
 	NurbsCurve();
+	NurbsCurve(const NurbsCurve& other) = default;
+	NurbsCurve& operator=(const NurbsCurve& other);
 	virtual ~NurbsCurve();
 
 	void clear();
diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 8c5c230..12fb7a5 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -18,6 +18,24 @@ NurbsSurface::~NurbsSurface()
 {
 }
 
+NurbsSurface& NurbsSurface::operator=(const NurbsSurface& other)
+{
+	NurbsSurface n(other); // may throw, keep the old surface then
+
+	_degreeU = n._degreeU;
+	_degreeV = n._degreeV;
+	_iNbPointsU = n._iNbPointsU;
+	_iNbPointsV = n._iNbPointsV;
+	_bClosedU = n._bClosedU;
+	_bClosedV = n._bClosedV;
+	_knotsU.swap(n._knotsU);
+	_knotsV.swap(n._knotsV);
+	_weights.swap(n._weights);
+	_points.swap(n._points);
+
+	return *this;
+}
+
 void NurbsSurface::clear()
 {
 	_degreeU = 0;
diff --git a/src/NurbsSurface.h b/src/NurbsSurface.h
index 6a2cafe..c7deaf6 100644
--- a/src/NurbsSurface.h
+++ b/src/NurbsSurface.h
@@ -13,6 +13,8 @@ class NurbsSurface
 {
 public:
 	NurbsSurface();
+	NurbsSurface(const NurbsSurface& other) = default;
+	NurbsSurface& operator=(const NurbsSurface& other);
 	virtual ~NurbsSurface();
 
 	void clear();
-- 
2.43.0


From 5898bf2c76492d7c9533f2f5a84b22bb778aad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:25 +0000
Subject: [PATCH 25/36] fix: Renderer cannot be copied, a copy freed the lights
 and the w buffer twice

---
 src/Renderer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Renderer.h b/src/Renderer.h
index a3f4122..cd2fdc7 100644
--- a/src/Renderer.h
+++ b/src/Renderer.h
@@ -13,6 +13,8 @@ class Renderer
 {
 public:
 	Renderer(int* pBuffer, int width, int height);
+	Renderer(const Renderer&) = delete; // owns its lights and its w buffer
+	Renderer& operator=(const Renderer&) = delete;
 	~Renderer();
 
 	void clear();
-- 
2.43.0


From 7bb7866754ea8aac854d5d2e9fab5a8eb12ed99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:56 +0000
Subject: [PATCH 26/36] fix: QuadBezierTriangle::add_to_mesh covers the whole
 patch

---
 src/QuadBezierTriangle.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..c4c7338 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -91,16 +91,18 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 	for (int is = 0; is <= iNbSegments - 1; is++)
 	{
 		int lineSize = iNbSegments - is + 1;
+		int nextPos = pos + lineSize; // the next line has one vertex less
 
 		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
+		m.add_triangle(pos, pos + 1, nextPos);
 
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 1; iu < lineSize - 1; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, nextPos + iu, nextPos + iu - 1);
+			m.add_triangle(pos + iu, pos + iu + 1, nextPos + iu);
 		}
+
+		pos = nextPos;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e11510349301d6a0dddbc7eb43bdad33f1554048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 27/36] fix: Renderer depth of lines cut at the left border

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 5700fa1..f1cf320 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -275,7 +275,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 	// cut the line if out of screen
 	if (ax < 0)
 	{
-		double t = (double)(bx-0) / (bx - ax);
+		double t = (double)(0-ax) / (bx - ax);
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-- 
2.43.0


From c1276cff40610b9fce5c4c08f7a1e7645de6f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:14 +0000
Subject: [PATCH 28/36] fix: Renderer draws the last row of triangles going
 below the screen

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index f1cf320..f0b50a4 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -221,13 +221,13 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		bx = dx * t + (1. - t)*bx;
 		bw = dw * t + (1. - t)*bw;
 	}
-	if (cy >= _Ymax )
+	if (cy > _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax; // excluded
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -236,7 +236,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From adf554e0d96e3a168ac99c3748c22bf928ebbf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 29/36] fix: Renderer rounds off-screen coordinates down, not
 towards the image

---
 src/Renderer.cpp       | 6 +++---
 src/RendererCamera.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index f0b50a4..653b7d0 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -169,7 +169,7 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t >= 0.);
 	assert(t <= 1.);
 
-	int dx = (int)(cx * t + (1. - t)*ax+0.5);
+	int dx = (int)floor(cx * t + (1. - t)*ax+0.5);
 	int dy = (int)(cy * t + (1. - t)*ay+0.5);
 	double dw = cw * t + (1. - t)*aw;
 
@@ -247,9 +247,9 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-		int p1x = (int)(cx * t + ax * (1. - t)+0.5);
+		int p1x = (int)floor(cx * t + ax * (1. - t)+0.5);
 		double p1w = (cw * t + aw * (1. - t));
-		int p2x = (int)(dx * t + bx * (1. - t)+0.5);
+		int p2x = (int)floor(dx * t + bx * (1. - t)+0.5);
 		double p2w = (dw * t + bw * (1. - t));
 
 		assert(p1x <= p2x);
diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..9ec6aa2 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -51,8 +51,8 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = (int)floor(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
+	screeny = (int)floor(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From 8bd5b9bb6c675b6dd3484daafaf4bf81fafadb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:24 +0000
Subject: [PATCH 30/36] fix: ImageIoBmp::read ignored the pixel offset and the
 compression of the file

---
 src/ImageIoBmp.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 3902640..b04ea78 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -25,7 +25,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4);
 	fbmp.read((char*)&sTmp, 2);
 	fbmp.read((char*)&sTmp, 2);
-	fbmp.read((char*)&iTmp, 4);
+	int iOffset = 0;
+	fbmp.read((char*)&iOffset, 4); //where the pixels are
 
 	// 2nd struct
 	fbmp.read((char*)&iTmp, 4);
@@ -39,7 +40,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	short sBPP = 0;
 	fbmp.read((char*)&sBPP, 2); // bpp
 
-	fbmp.read((char*)&iTmp, 4); //compression
+	int iCompression = 0;
+	fbmp.read((char*)&iCompression, 4); //compression
 	fbmp.read((char*)&iTmp, 4); //sizeimage
 	fbmp.read((char*)&iTmp, 4); //ppiX
 	fbmp.read((char*)&iTmp, 4); //ppiY
@@ -49,15 +51,17 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	//format not handled for now
 	if (sBPP != 8 && sBPP != 24 && sBPP != 32)
 		return false;
+	if (iCompression != 0)
+		return false;
 
 	//check that all the pixels are in the file, before allocating them
 	int iNbByte = sBPP >> 3;
 	long long iLineSize = ((long long)iWidth * iNbByte + 3) / 4 * 4; //lines are padded to 4 bytes
-	long long iPixelsStart = (long long)fbmp.tellg() + (sBPP == 8 ? 256 * 4 : 0);
+	long long iPixelsStart = iOffset;
 	fbmp.seekg(0, std::ios::end);
 	long long iPixelsSize = (long long)fbmp.tellg() - iPixelsStart;
-	fbmp.seekg(54, std::ios::beg);
-	if (!fbmp || iWidth < 0 || iHeight < 0 || iPixelsSize < 0)
+	fbmp.seekg(iPixelsStart, std::ios::beg);
+	if (!fbmp || iWidth < 0 || iHeight < 0 || iPixelsStart < 54 || iPixelsSize < 0)
 		return false;
 	if (iHeight > 0 && iLineSize > iPixelsSize / iHeight)
 		return false;
@@ -118,10 +122,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 		int iPack = (int)(iLineSize - iWidth);
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-		//read lut, but do not use:
-		for (int i = 0; i < 256 * 4; i++)
-			fbmp.read((char*)cTmp, 1);
-
+		//the lut is before the pixels, not used
 		for (int iY = iHeight - 1; iY >= 0; iY--)
 		{
 			pLineY = pImage->pixel(0, iY, 0);
-- 
2.43.0


From 5fdcdc611bf540a09b83684a5703d110b7b46516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 31/36] fix: ImageIoBmp::write aborted on images of width 0

---
 src/ImageIoBmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index b04ea78..38336cf 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -219,6 +219,9 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 		}
 	}
 
+	if (iWidth == 0)
+		iHeight = 0; //no pixels to write
+
 	const unsigned char cTmp[3] = { 0 };
 	const unsigned char* pLineY;
 
-- 
2.43.0


From b9daa1bdf44de35a54591c4985f89517df650caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 32/36] fix: RendererCamera::project overflowed for points far
 out of the screen

---
 src/RendererCamera.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index 9ec6aa2..d335549 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -47,12 +47,25 @@ Point3 RendererCamera::local_ref(const Point3& pc) const
 	return pLocal;
 }
 ////////////////////////////////////////////////////////////////////////////////
+// points far out of the screen stay on their side, and within the range of an int
+static int to_pixel(double d)
+{
+	const int iMax = (1 << 30) - 1; // so that the differences do not overflow
+
+	if (!(d > -iMax))
+		return -iMax;
+	if (d > iMax)
+		return iMax;
+
+	return (int)floor(d + 0.5);
+}
+////////////////////////////////////////////////////////////////////////////////
 void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny, double& w)
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)floor(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)floor(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = to_pixel(pc.x() * _zoomFactor / pc.z() + _screenCenterX);
+	screeny = to_pixel(pc.y() * _zoomFactor / pc.z() + _screenCenterY);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From 3294ec55f9682edfb7f644e37d53f8f1470dd4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 33/36] fix: Renderer::draw_line took a step for each pixel out
 of the screen

---
 src/Renderer.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 653b7d0..5e99405 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -334,6 +334,27 @@ void Renderer::set_background(int iBackgroundColor)
 	_iBackgroundColor = iBackgroundColor;
 }
 ////////////////////////////////////////////////////////////////////////////////
+// reduce the steps of f+i*d to the ones that can be in [0,iMax[
+static void clip_steps(double f, double d, int iMax, double& dFirst, double& dLast)
+{
+	if (d == 0.)
+	{
+		if ((f < 0.) || (f >= iMax))
+			dLast = dFirst; // none
+		return;
+	}
+
+	double t1 = -f / d;
+	double t2 = (iMax - f) / d;
+	double tIn = t1 < t2 ? t1 : t2;
+	double tOut = t1 < t2 ? t2 : t1;
+
+	if (dFirst < floor(tIn) - 1.)
+		dFirst = floor(tIn) - 1.;
+	if (dLast > ceil(tOut) + 1.)
+		dLast = ceil(tOut) + 1.;
+}
+////////////////////////////////////////////////////////////////////////////////
 void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 {
 	//todo optimize
@@ -363,7 +384,18 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 	fz = zp1;
 	dz = (zp2 - zp1) / im;
 
-	for (i = 0; i < im; i++)
+	// skip the part out of the screen, it may be very long
+	double dFirst = 0., dLast = im;
+	clip_steps(fx, dx, _Xmax, dFirst, dLast);
+	clip_steps(fy, dy, _Ymax, dFirst, dLast);
+	if (dFirst >= dLast)
+		return;
+
+	fx += dx * dFirst;
+	fy += dy * dFirst;
+	fz += dz * dFirst;
+
+	for (i = (int)dFirst; i < (int)dLast; i++)
 	{
 		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax))// && (fz>0) )
 		{
-- 
2.43.0


From 2422cbe70dabb212b8645417b4ee6c8cd2c10bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 34/36] fix: OBJFile::load kept only the first triangle of
 polygons and refused texture, normal and relative indices

---
 src/OBJFile.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index f20b77d..50eca27 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -1,5 +1,6 @@
 #include <fstream>
 #include <string>
+#include <vector>
 #include <sstream>
 #include <iostream>
 #include <locale>
@@ -52,18 +53,35 @@ namespace OBJFile
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
-			// read facet
+			// read facet, polygons are loaded as a fan of triangles
 			if (sType == "f")
 			{
-				int i1, i2, i3;
 				int nbV = to_mesh.nb_vertices();
-				if (!(ss >> i1 >> i2 >> i3) || i1 < 1 || i2 < 1 || i3 < 1 || i1 > nbV || i2 > nbV || i3 > nbV)
+				vector<int> facet;
+				string sCorner;
+				bool bOk = true;
+				while (bOk && (ss >> sCorner) && sCorner[0] != '#')
+				{
+					stringstream sc(sCorner);
+					sc.imbue(locale::classic());
+					int i = 0;
+					char c = '/';
+					bOk = bool(sc >> i);
+					sc >> c; // after a '/': texture and normal indices, not used
+					if (i < 0)
+						i += nbV + 1; // counted from the last vertex
+					bOk = bOk && c == '/' && i >= 1 && i <= nbV;
+					facet.push_back(i - 1);
+				}
+
+				if (!bOk || facet.size() < 3)
 				{
 					to_mesh.clear();
 					return false;
 				}
 
-				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
+				for (int i = 2; i < (int)facet.size(); i++)
+					to_mesh.add_triangle(facet[0], facet[i - 1], facet[i]);
 			}
 		}
 
-- 
2.43.0


From 880ee17f92f6a6972cbd2df7f617d2ed67538229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 35/36] fix: ImageIoBmp::read ignored the palette of 8 bits
 files

---
 src/ImageIoBmp.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 38336cf..ee6ca18 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -29,7 +29,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iOffset, 4); //where the pixels are
 
 	// 2nd struct
-	fbmp.read((char*)&iTmp, 4);
+	int iHeaderSize = 0;
+	fbmp.read((char*)&iHeaderSize, 4);
 	int iWidth = 0, iHeight = 0;
 	fbmp.read((char*)&iWidth, 4);
 	fbmp.read((char*)&iHeight, 4);
@@ -45,7 +46,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4); //sizeimage
 	fbmp.read((char*)&iTmp, 4); //ppiX
 	fbmp.read((char*)&iTmp, 4); //ppiY
-	fbmp.read((char*)&iTmp, 4); //clrused
+	int iNbColors = 0;
+	fbmp.read((char*)&iNbColors, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
 	//format not handled for now
@@ -66,6 +68,32 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (iHeight > 0 && iLineSize > iPixelsSize / iHeight)
 		return false;
 
+	//8 bits: the palette is before the pixels, only grey levels are handled for now
+	unsigned char cGrey[256];
+	for (int i = 0; i < 256; i++)
+		cGrey[i] = (unsigned char)i;
+	if (sBPP == 8)
+	{
+		if (iHeaderSize < 40 || iHeaderSize > iPixelsStart - 14)
+			return false;
+		long long iPaletteSize = (iPixelsStart - 14 - iHeaderSize) / 4;
+		if (iPaletteSize > 256)
+			iPaletteSize = 256;
+		if (iNbColors > 0 && iPaletteSize > iNbColors)
+			iPaletteSize = iNbColors;
+
+		fbmp.seekg(14 + iHeaderSize, std::ios::beg);
+		for (int i = 0; i < iPaletteSize; i++)
+		{
+			unsigned char cBGR[4] = { 0 };
+			fbmp.read((char*)cBGR, 4);
+			if (!fbmp || cBGR[0] != cBGR[1] || cBGR[0] != cBGR[2])
+				return false;
+			cGrey[i] = cBGR[0];
+		}
+		fbmp.seekg(iPixelsStart, std::ios::beg);
+	}
+
 	pImage->resize(iWidth, iHeight, iNbByte);
 	if (pImage->size() == 0)
 		return true;
@@ -118,15 +146,16 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	}
 
 	if (sBPP == 8)
-	{   //assume grey level, no color LUT for now
+	{
 		int iPack = (int)(iLineSize - iWidth);
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-		//the lut is before the pixels, not used
 		for (int iY = iHeight - 1; iY >= 0; iY--)
 		{
 			pLineY = pImage->pixel(0, iY, 0);
 			fbmp.read((char*)pLineY, iWidth);
+			for (int iX = 0; iX < iWidth; iX++)
+				pLineY[iX] = cGrey[pLineY[iX]];
 			fbmp.read((char*)cTmp, iPack);
 		}
 		return fbmp.good();
-- 
2.43.0


From fe8ceae6ddc106521d2ffcc9cd4252d8ad265991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 36/36] fix: Image::to_double left old values in the array for
 images of several planes

---
 src/Image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image.h b/src/Image.h
index 4150725..c046fe5 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -119,7 +119,7 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
+        img.assign(size(), 0.);
         for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
             for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
                 img[colonne + ligne * height()] = (*this)((int)ligne, (int)colonne);
-- 
2.43.0

