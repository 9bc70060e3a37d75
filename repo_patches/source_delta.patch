From 2d62ef8cba83b57baf2b928408db39c425f2b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:41 +0000
Subject: [PATCH 001/100] fix: reject negative row and pad numbers in
 getPadIndex of all pad layouts

Negative numbers (and any number on a layout without rows) were packed into
an index of a pad that does not exist, or read outside the row vector.
---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 ++--
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 4 ++--
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 33bd24c..1141306 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -188,12 +188,12 @@ namespace gear {
 
   int FixedPadAngleDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-      if( rowNum  > _nRow - 1 )
+      if( rowNum < 0 || rowNum  > _nRow - 1 )
       {
 	  throw std::out_of_range(" FixedPadAngleDiskLayout::getPadIndex row number too large !");
       }
     
-    if( padNum > _nPadsInRow - 1 ) {
+    if( padNum < 0 || padNum > _nPadsInRow - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 7466118..ebcd783 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -237,12 +237,12 @@ namespace gear {
 
   int FixedPadSizeDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
 
       throw std::out_of_range(" FixedPadSizeDiskLayout::getPadIndex row number too large !");
     }
 
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
 
       std::stringstream sstr ;
 
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4be80a1..1cf11d8 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -274,12 +274,12 @@ namespace gear {
   int RectangularPadRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
       throw std::out_of_range(" RectangularPadRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 1e8c11f..da3b1ec 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -225,12 +225,12 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   int VersatileDiskRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
       throw std::out_of_range(" VersatileDiskRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].getNPads() - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].getNPads() - 1 ) {
       
       std::stringstream sstr ;
       
-- 
2.43.0


From 98f2536a199a9918f95289b19a39ddceae084e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 002/100] fix: a rejected addRow no longer changes the number
 of pads

---
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 1cf11d8..dafad40 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -89,8 +89,6 @@ namespace gear {
 
     Row row ; 
 
-    _nPad += abs( nRow ) * abs( nPad )  ;
-    
     row.WidthPerPad = rowWidth / nPad ;
 
     if( rowHeight == 0.0 ) 
@@ -106,6 +104,8 @@ namespace gear {
     }
 
 
+    _nPad += abs( nRow ) * abs( nPad )  ;
+
     row.NPad = nPad  ;
     row.PadWidth = padWidth ;
     row.PadHeight = padHeight ;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index da3b1ec..5089dc3 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -77,8 +77,6 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     double rCentre = _extent[1] + rowHeight*0.5;
 
-    _nPad +=  repeat*nPads ;
-
     for (int i = 0; i < repeat; i++)
     {
 	_rows.push_back( Row(_rows.size(), nPads, rCentre, padPitch , rowHeight , 
@@ -87,6 +85,8 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 	rCentre += rowHeight;
     }
 
+    _nPad +=  repeat*nPads ;
+
     // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
     if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-- 
2.43.0


From 6137000a5a2ae85c3156f3c693fb2cf38b0976dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 003/100] fix: getDistanceToPad in polar layouts ignored that
 phi is periodic

A point inside the pad whose azimuth was given one turn off (e.g. negative)
was reported at a non-zero distance.
---
 src/gearimpl/FixedDiskLayoutBase.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 0bc1124..3a29e8f 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -26,6 +26,10 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	double r_max = padCenter[0] + getRowHeight( getRowNumber(padIndex) ) /2.;
 	double phi_min = padCenter[1]- getPadPitch( padIndex ) /2.;
 	double phi_max = padCenter[1]+ getPadPitch( padIndex ) /2.;
+
+	// wrap phi to a symmetric range of 2*pi around the pad centre
+	while( phi < padCenter[1] - M_PI ) {  phi += 2. * M_PI  ; }
+	while( phi > padCenter[1] + M_PI ) {  phi -= 2. * M_PI  ; }
 	
 //      if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 //	  (phi < padCenter[1]- _padAngle/2.)  || (phi < padCenter[1]+_padAngle/2. ) )
-- 
2.43.0


From fe7ebf2d2f31908b896fa68c062424e8f0650cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 004/100] fix: FixedPadSizeDiskLayout::getNearestPad picked the
 wrong edge for partial disks

phi was only wrapped to +-2 pi, so points inside the plane given one turn off
and points closer to the phi=0 edge were assigned to the phiMax edge.
---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index ebcd783..65d99e1 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -275,8 +275,9 @@ namespace gear {
 	
 	} else {
 	 
-	  while( phi < -2*M_PI       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+	  // wrap phi to a symmetric range of 2*pi around the centre of the plane
+	  while( phi < 0.5*_phiMax - M_PI ) {  phi += 2. * M_PI  ; }
+	  while( phi > 0.5*_phiMax + M_PI ) {  phi -= 2. * M_PI  ; }
 	  
 	  rProjectedOnPhiMax = r * cos(phi - _phiMax);
 	  rProjectedOnPhiMin = r * cos(phi - 0.);
-- 
2.43.0


From e4edae903bced525d392b90c15f62e00d7b047ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 005/100] fix: FixedPadAngleDiskLayout::getNearestPad at and
 beyond the phi edges

The row was taken from the radius of the point instead of its projection on
the edge, and phi==phiMax gave a pad number that does not exist.
---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 1141306..f3b2fd6 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -224,6 +224,8 @@ namespace gear {
     {
 	// This is easy, the pad number in the row is the one corresponding to the angle
 	int padNumber = static_cast<int>( (phi - _phiMin) / _padAngle );
+	if( padNumber >= _nPadsInRow ) // phi == _phiMax
+	    padNumber = _nPadsInRow - 1 ;
 	
 	int rowNum = r < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
     
@@ -254,7 +256,7 @@ namespace gear {
 	//    double m_min =  r * (cos(phi)*sin(_phiMin) - sin(phi)*cos(_phiMin));
       
 	// determine the nearest pad on the rightmost edge
-	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r_intersect_min - _rMin ) / _rowHeight  ) ;
 	if( rowNum_right >= _nRow  )       
 	    rowNum_right = _nRow -1 ;
     }
@@ -271,7 +273,7 @@ namespace gear {
 	//    double m_max =  r * (cos(phi)*sin(_phiMax) - sin(phi)*cos(_phiMax));
 
 	// determine the nearest pad on the leftmost edge
-	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r_intersect_max - _rMin ) / _rowHeight  ) ;
 	if( rowNum_left >= _nRow  )       
 	    rowNum_left = _nRow -1 ;
     }
-- 
2.43.0


From 98b2867e6046b84e8a16ddeff9ff26379fb04ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 006/100] fix: FixedPadAngleDiskLayout::isInsidePad ignored
 that phi is periodic

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index f3b2fd6..f18d5ec 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -335,6 +335,10 @@ namespace gear {
 //     }
       Vector2D padCenter = getPadCenter( padIndex);
 
+      // wrap phi to a symmetric range of 2*pi around the pad centre
+      while( phi < padCenter[1] - M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > padCenter[1] + M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 	  (phi < padCenter[1]- _padAngle/2.)  || (phi > padCenter[1]+_padAngle/2. ) )
 	  return false ;
@@ -344,6 +348,11 @@ namespace gear {
 
   bool FixedPadAngleDiskLayout::isInsidePad(double r, double phi) const {
 
+      // wrap phi to a symmetric range of 2*pi around the mean angle of the module
+      double phiMean = (_phiMax+_phiMin)/2.;
+      while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > phiMean+M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r < _rMin) || (r > _rMax) || (phi < _phiMin) || (phi > _phiMax) )
 	  return false ;
       else
-- 
2.43.0


From acaf96328572e877d33643dff5b254b0f67bbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 007/100] fix: VersatileDiskRowLayout neighbours wrap around
 only in full-circle rows

The test used the extent of the whole plane, so partial rows became closed
(or full-circle rows open) depending on the other rows.
---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 5089dc3..27c783c 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -255,7 +255,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if(pn == -1)
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(_rows[rn].getNPads()*_rows[rn].getPadPitch() - 2*M_PI) < 1e-6 )
 	    pn =  _rows[rn].getNPads() -1 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getRightNeighbour: no right neighbour pad !");
@@ -274,7 +274,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if (pn == _rows[rn].getNPads())
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(_rows[rn].getNPads()*_rows[rn].getPadPitch() - 2*M_PI) < 1e-6 )
 	    pn = 0 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getLeftNeighbour: no left neighbour pad !");
-- 
2.43.0


From 533a17a8cee6de0d3be5ec784d6243a1c1e457e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 008/100] fix: VersatileDiskRowLayout::getNearestPad for rows
 not starting at phi=0

phi was wrapped to 0..2pi independent of the row's offset: for a positive
offset points below it gave a negative pad number packed into the index, for
a negative offset points inside the row were treated as outside.
---
 src/gearimpl/VersatileDiskRowLayout.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 27c783c..bd422fa 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -385,10 +385,10 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
+    // wrap phi to phiMin <= phi < phiMin + 2*M_PI
     
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    while( phi <  _offset            ) {  phi += 2. * M_PI  ; }
+    while( phi >= _offset + 2.*M_PI ) {  phi -= 2. * M_PI  ; }
 	
 	//
 
@@ -397,6 +397,8 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
     if (phi < _offset + _nPads * _padPitch)
     {
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
+	if (padNumber >= _nPads) // rounding errors at the edge
+	    padNumber = _nPads - 1;
 	
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
     }
@@ -414,10 +416,10 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 
 double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
+    // wrap phi to phiMin <= phi < phiMin + 2*M_PI
     
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    while( phi <  _offset            ) {  phi += 2. * M_PI  ; }
+    while( phi >= _offset + 2.*M_PI ) {  phi -= 2. * M_PI  ; }
 	
     // copy the code from getDistanceToPad....
 
-- 
2.43.0


From 5bc7cc412c5239b5026b10d951fae0957fa79821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:18 +0000
Subject: [PATCH 009/100] fix: VersatileDiskRowLayout distance to a row edge
 used the corners only

For points beside a row getNearestPad selected the row below it, because the
shared corner is equally far from both rows.
---
 src/gearimpl/VersatileDiskRowLayout.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index bd422fa..095f29e 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -468,6 +468,11 @@ double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 	double r_max   = _rCentre + _rowHeight*0.5;	
 	double phi_min = _offset;
 	
+	// the nearest point is on the edge itself, unless its projection is beyond the corners
+	double r_intersect = r*cos(phi_min - phi);
+	if ( r_intersect >= r_min && r_intersect <= r_max )
+	    return fabs( r*sin(phi_min - phi) );
+
 	double distanceToCorner[2];
 	
 	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_min - phi);
@@ -492,6 +497,11 @@ double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
 	double r_max   = _rCentre + _rowHeight*0.5;	
 	double phi_max = _offset + _nPads * _padPitch;
 	
+	// the nearest point is on the edge itself, unless its projection is beyond the corners
+	double r_intersect = r*cos(phi_max - phi);
+	if ( r_intersect >= r_min && r_intersect <= r_max )
+	    return fabs( r*sin(phi_max - phi) );
+
 	double distanceToCorner[2];
 	
 	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_max - phi);
-- 
2.43.0


From c4095cd8a7047e2039823fa2433a46de2b05cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 010/100] fix: VersatileDiskRowLayout::isInsidePad ignored that
 phi is periodic

---
 src/gearimpl/VersatileDiskRowLayout.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 095f29e..3da5f0a 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -321,10 +321,10 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     double phiMin = row.getOffset() + row.getPadPitch()*pn;
 
     // wrap phi to phiMin .. phiMin + 2*pi
-    if (phi < phiMin)
+    while (phi < phiMin)
 	phi += 2. * M_PI;
 
-    if (phi >= phiMin + 2*M_PI)
+    while (phi >= phiMin + 2*M_PI)
 	phi -= 2. * M_PI;
 
     double phiMax = phiMin + row.getPadPitch();
@@ -335,9 +335,8 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
   bool VersatileDiskRowLayout::isInsidePad(double r, double phi) const {
 
-    //  outside of pad plane
-    if( r < _extent[0] || r > _extent[1] || 
-	phi < _extent[2] || phi > _extent[3] )
+    //  outside of pad plane (phi is periodic, it is checked with the pad)
+    if( _rows.empty() || r < _extent[0] || r > _extent[1] )
       
       return false ;
     
-- 
2.43.0


From 9f2970e9ea11f721a8544c345f774dd2665a0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 011/100] fix: RectangularPadRowLayout::getNearestPad read rows
 outside the layout

---
 src/gearimpl/RectangularPadRowLayout.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index dafad40..2f787f3 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -368,6 +368,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
     // do a binary search for the nearest row
 	while( true ) {
 
+		// stay in the layout, also in case of rounding errors in the guess
+		if( row_number < 0 ) row_number = 0 ;
+		if( row_number > (int)_rows.size() - 1 ) row_number = (int)_rows.size() - 1 ;
+
 		const Row &row = _rows[row_number];
 		const double y_displacement = y - row.Center;
 		
@@ -382,6 +386,11 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			
 			// check the next row of pads, it could be closer to them then this row
 			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
+
+			// there is nothing below the first and above the last row
+			if( next_row_number < 0 || next_row_number > (int)_rows.size() - 1 )
+			  break;
+
 			const Row &next_row = _rows[next_row_number];
 
 			const double y_distance_from_pads = fabs(y_displacement) - (row.PadHeight/2);
@@ -409,6 +418,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 				offset = y_displacement - (row.Height/2);
 			}
 
+			// no row left in this direction: y is at the edge of this row within numerical precision
+			if( remaining_rows == 0 || !( remaining_distance > 0. ) )
+			  break;
+
 			const double param = remaining_rows * (offset / remaining_distance);
 			const int delta_row = (int)((param < 0)? floor(param): ceil(param));
 
-- 
2.43.0


From a38b1bf036f7dc489fb52d8339e5afc2bbe5bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 012/100] fix: RectangularPadRowLayout::getDistanceToPad is
 wrt. the effective pad

---
 src/gearimpl/RectangularPadRowLayout.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 2f787f3..e61ebe6 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -595,9 +595,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
        // calculate xMin, xMax, yMin, yMax from pad coordinates
        Vector2D padCentre = getPadCenter(padIndex);
 
-//       int rowNumber = getRowNumber(padIndex);
-       double padHeight = getPadHeight(padIndex);
-       double padWidth  = getPadWidth(padIndex);
+       // the distance is defined wrt. the effective pad (pad pitch and row height)
+       double padHeight = getRowHeight(getRowNumber(padIndex));
+       double padWidth  = getPadPitch(padIndex);
 
        Vector2D testCoordinates;
        testCoordinates[0]=c0; testCoordinates[1]=c1;
-- 
2.43.0


From cf1767ba99d2d67c26160a1cc741b7a282567468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 013/100] fix: VersatileDiskRowLayout extent missed all but the
 last of repeated rows

---
 src/gearimpl/VersatileDiskRowLayout.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 3da5f0a..a57813f 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -89,10 +89,14 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-	_extent[2] = _rows.back().getPhiMin();
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
-	_extent[3] = _rows.back().getPhiMax();
+    // (the phi range depends on the radius, so all the new rows have to be looked at)
+    for (unsigned i = _rows.size() - repeat; i < _rows.size(); i++)
+    {
+	if ( (i == 0) || (_rows[i].getPhiMin() < _extent[2] ) )
+	    _extent[2] = _rows[i].getPhiMin();
+	if ( (i == 0) || (_rows[i].getPhiMax() > _extent[3] ) )
+	    _extent[3] = _rows[i].getPhiMax();
+    }
     
     if ( (_extent[3] - _extent[2]) > 2*M_PI )
     {
-- 
2.43.0


From a92ce8b04c6e3a302f291281370428086714ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 014/100] fix: copies of RectangularPadRowLayout listed no pads
 in their rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index e61ebe6..509160b 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -44,7 +44,7 @@ namespace gear {
       // In every instance, also the copied ones, it is filled only at first
       // usage to save memory
       // just like in the constructor
-      _padIndices.resize( _nRow ) ;
+      _padIndices.resize( _rows.size() ) ;
       for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
 	   rowIter < _padIndices.end(); rowIter++)
       {
-- 
2.43.0


From b4dc7cfc852ae43bb4f01711a3647e70c82f30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 015/100] fix: TPCModule border reaching around the circle or
 the centre gave a wrong local extent

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0c07290..325e875 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -213,7 +213,7 @@ namespace gear {
 		
 		    // first calculate the angle which corresponds to the border
 		    double phiBorder;
-		    if (_padRowLayout->getPlaneExtent()[1] > 0) // inner radius of pad plane > 0
+		    if (_padRowLayout->getPlaneExtent()[0] > 0) // inner radius of pad plane > 0
 			                                        // to avoid divide by 0
 		    {
 			//phiBorder = _border/_padRowLayout->getPlaneExtent()[1] * 2. *M_PI;
@@ -231,7 +231,8 @@ namespace gear {
 		    if (phiMax - phiMin > 2*M_PI)
 		    {
 			// the border should be half of the gap between the pad layout edged
-			phiBorder = (2*M_PI - phiMax + phiMin)/2.;
+			phiBorder = (2*M_PI - _padRowLayout->getPlaneExtent()[3]
+				     + _padRowLayout->getPlaneExtent()[2])/2.;
 			phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
-- 
2.43.0


From 82a7a6cb664e6361284d70aaf22c8fea1148d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 016/100] fix: TPCModule extents were wrong before the first
 and after the last setter

---
 src/gearimpl/TPCModuleImpl.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 325e875..8c88e60 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1198,6 +1198,11 @@ namespace gear {
 	  _zPositionIsSet = false;
 
 	  checkLocalIsGlobal();
+
+	  // if the coordinate types differ the extents are not those of the pad layout
+	  // (not implemented for cartesian pad planes in polar coordinates)
+	  if ( (_momsCoordinateType == PadRowLayout2D::CARTESIAN) && ! _localIsGlobal )
+	      convertLocalPlaneToGlobalPlaneExtend();
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
@@ -1508,6 +1513,13 @@ namespace gear {
     {
       _zPosition = z;
       _zPositionIsSet = true;
+
+      // The x coordinate is inverted for the negative half TPC, so the extents change.
+      // (They are not implemented for cartesian pad planes in polar coordinates.)
+      checkLocalIsGlobal();
+      if ( (_momsCoordinateType == _padRowLayout->getCoordinateType())
+	   || (_momsCoordinateType == PadRowLayout2D::CARTESIAN) )
+	convertLocalPlaneToGlobalPlaneExtend();
     }
 
     void TPCModuleImpl::setAngle(double angle)
-- 
2.43.0


From 13c325bd4f041f95ea35605bcc222a0e231b1ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 017/100] fix: TPCModule extent of a rotated full circle
 collapsed to a line

---
 src/gearimpl/TPCModuleImpl.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 8c88e60..565088d 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -480,13 +480,9 @@ namespace gear {
 	      phiMax = M_PI - localExtent[2] - _angle;
 	    }
 
-	    // force phiMax to 0 .. 2*M_PI
-	    while (phiMax > 2*M_PI)  phiMax -= 2*M_PI;
-	    while (phiMax <  0     )  phiMax += 2*M_PI;
-	    
-	    // force phiMin to be smaller than phiMax, but max 
-	    while ( phiMin > phiMax          )  phiMin -= 2*M_PI;
-	    while ( phiMin < phiMax - 2*M_PI )  phiMin += 2*M_PI;
+	    // force phiMax to 0 .. 2*M_PI, and keep the size of the range (it can be the full circle)
+	    while (phiMax > 2*M_PI) { phiMin -= 2*M_PI; phiMax -= 2*M_PI; }
+	    while (phiMax <  0    ) { phiMin += 2*M_PI; phiMax += 2*M_PI; }
 
 	    std::vector<double> globalExtent;
 	    globalExtent.push_back(localExtent[0]);
-- 
2.43.0


From 1baf6e4910d7f3149256f2715296f8aab0975bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 018/100] fix: TPCModule extents missed arcs for pad planes
 with angles beyond 2 pi

---
 src/gearimpl/TPCModuleImpl.cc | 75 ++++++++++-------------------------
 1 file changed, 21 insertions(+), 54 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 565088d..1f992ed 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -7,6 +7,14 @@
 #include <limits>
 
 namespace gear {
+    /* True if the angle is in the range, for any number of turns between the two. */
+    static bool isInPhiRange(double phi, double phiMin, double phiMax)
+    {
+	while ( phi < phiMin )           phi += 2*M_PI;
+	while ( phi >= phiMin + 2*M_PI ) phi -= 2*M_PI;
+	return phi < phiMax;
+    }
+
     /* Transforms a point from the global coordinates to Layout2D coordinates.*/
     gear::Vector2D TPCModuleImpl::globalToLocal(double c0,double c1)const 
     {
@@ -382,15 +390,8 @@ namespace gear {
 	Vector2D localOriginInGlobalCoordinates = localToGlobal( 0 , 0 );
 	double testYMax = localOriginInGlobalCoordinates[1] + localExtent[1]; // module centre + rMax
 	double localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMax )[1];
-	// test for [0:2pi] and [-2pi:0]
-	double localPhi2 ;
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi1, localExtent[2], localExtent[3] ) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMax = testYMax;
@@ -401,17 +402,8 @@ namespace gear {
 	// test the possible new yMin
 	double testYMin = localOriginInGlobalCoordinates[1] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMin )[1];
-	// std::cout <<"#DEBUG localPhi1 for ymin "<< localPhi1<<std::endl;
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
-	//std::cout <<"#DEBUG localPhi2 for ymin "<< localPhi2<<std::endl;
-
 	// change yMin if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi1, localExtent[2], localExtent[3] ) )
 	{   // testYMin is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMin = testYMin;
@@ -420,14 +412,8 @@ namespace gear {
 	// test tho possible new xMax
 	double testXMax = localOriginInGlobalCoordinates[0] + localExtent[1]; // module centre + rMax
 	localPhi1 = globalToLocal( testXMax, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi1, localExtent[2], localExtent[3] ) )
 	{   // testXMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMax = testXMax;
@@ -436,14 +422,8 @@ namespace gear {
 	// test the possible new xMin
 	double testXMin = localOriginInGlobalCoordinates[0] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( testXMin, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi1, localExtent[2], localExtent[3] ) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMin = testXMin;
@@ -517,18 +497,11 @@ namespace gear {
 	    }
 
 	    // test if rMin direction is in pad plane
-	    // test for [0:2pi] and [-2pi:0]
-	    double phiTest1 =  fmod(globalOriginInLocal[1], 2*M_PI);
-	    double phiTest2;
-	    if ( phiTest1 < 0 )
-		phiTest2 = phiTest1 + 2*M_PI;
-	    else
-		phiTest2 = phiTest1 - 2*M_PI;
-	    
+	    double phiTest1 = globalOriginInLocal[1];
+
 	    double rMin;
-	    // one of the two has to be in the active area for this to be the real rMin
-	    if ( ( (phiTest1 > localExtent[2]) && (phiTest1 < localExtent[3]) ) ||
-		 ( (phiTest2 > localExtent[2]) && (phiTest2 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMin
+	    if ( isInPhiRange( phiTest1, localExtent[2], localExtent[3] ) )
 	    {
 
 		//std::cout << "#rmin in active area"<< std::endl;
@@ -618,18 +591,12 @@ namespace gear {
 	    }
 
 	    // now rMax
-	    // test for [0:2pi] and [-2pi:0], the direction opposite of the origin
-	    double phiTest3 =  fmod(globalOriginInLocal[1] + M_PI, 2*M_PI);
-	    double phiTest4;
-	    if ( phiTest3 < 0 )
-		phiTest4 = phiTest3 + 2*M_PI;
-	    else
-		phiTest4 = phiTest3 - 2*M_PI;
-				
+	    // test the direction opposite of the origin
+	    double phiTest3 = globalOriginInLocal[1] + M_PI;
+
 	    double rMax;
-	    // one of the two has to be in the active area for this to be the real rMax
-	    if ( ( (phiTest3 > localExtent[2]) && (phiTest3 < localExtent[3]) ) ||
-		 ( (phiTest4 > localExtent[2]) && (phiTest4 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMax
+	    if ( isInPhiRange( phiTest3, localExtent[2], localExtent[3] ) )
 	    {
 		//std::cout << "#rmax in active area"<< std::endl;
 		// rMax is the sum of local rMax and the distance to the origin
-- 
2.43.0


From a433d4cdc64ec0dd0d793624f3f4cc023334ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 019/100] fix: registering the same object again in GearMgrImpl
 left a dangling pointer

---
 src/gearimpl/GearMgrImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index d7cb6a2..4ffdd05 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -392,7 +392,7 @@ namespace gear{
 
     if( it != _map.end() ) {
       
-      delete it->second ;
+      if( it->second != parameters ) delete it->second ;
       it->second = parameters ;
       
     } else {
@@ -406,7 +406,7 @@ namespace gear{
   
   void GearMgrImpl::setTPCParameters( TPCParameters* tpcParameters ) {
     
-    if(  _tpcParameters ) 
+    if(  _tpcParameters != tpcParameters ) 
       delete _tpcParameters ;
 
     _tpcParameters = tpcParameters ;
-- 
2.43.0


From 9bfdf1abc8b0a1d70b97ad19117a1bf5424eb310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 020/100] fix: GearMgrImpl leaked the parameters replaced by a
 second registration

---
 src/gearimpl/GearMgrImpl.cc | 48 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index 4ffdd05..97ddc5c 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -24,6 +24,12 @@
 
 namespace gear{
 
+  // The manager owns what is registered: delete what gets replaced.
+  template <class T> static void replaceOwned( T*& slot , T* value ) {
+    if( slot != value ) delete slot ;
+    slot = value ;
+  }
+
 
   GearMgrImpl::GearMgrImpl() :
     _tpcParameters(0) ,
@@ -414,51 +420,51 @@ namespace gear{
 
   void GearMgrImpl::setBField( BField* b){
     
-    _bField = b ;
+    replaceOwned( _bField , b ) ;
   }
 
   void GearMgrImpl::setEcalBarrelParameters( CalorimeterParameters* ecalBarrelParameters ) {
     
-    _ecalBarrelParameters = ecalBarrelParameters ;
+    replaceOwned( _ecalBarrelParameters , ecalBarrelParameters ) ;
   }
   void GearMgrImpl::setEcalEndcapParameters( CalorimeterParameters* ecalEndcapParameters ) {
     
-    _ecalEndcapParameters = ecalEndcapParameters ;
+    replaceOwned( _ecalEndcapParameters , ecalEndcapParameters ) ;
   }
 
   void GearMgrImpl::setEcalPlugParameters( CalorimeterParameters* ecalPlugParameters ) {
     
-    _ecalPlugParameters = ecalPlugParameters ;
+    replaceOwned( _ecalPlugParameters , ecalPlugParameters ) ;
   }
 
   void GearMgrImpl::setYokeBarrelParameters( CalorimeterParameters* yokeBarrelParameters ) {
     
-    _yokeBarrelParameters = yokeBarrelParameters ;
+    replaceOwned( _yokeBarrelParameters , yokeBarrelParameters ) ;
   }
   void GearMgrImpl::setYokeEndcapParameters( CalorimeterParameters* yokeEndcapParameters ) {
     
-    _yokeEndcapParameters = yokeEndcapParameters ;
+    replaceOwned( _yokeEndcapParameters , yokeEndcapParameters ) ;
   }
 
   void GearMgrImpl::setYokePlugParameters( CalorimeterParameters* yokePlugParameters ) {
     
-    _yokePlugParameters = yokePlugParameters ;
+    replaceOwned( _yokePlugParameters , yokePlugParameters ) ;
   }
 
 
   void GearMgrImpl::setHcalBarrelParameters( CalorimeterParameters* hcalBarrelParameters ) {
     
-    _hcalBarrelParameters = hcalBarrelParameters ;
+    replaceOwned( _hcalBarrelParameters , hcalBarrelParameters ) ;
   }
 
   void GearMgrImpl::setHcalEndcapParameters( CalorimeterParameters* hcalEndcapParameters ) {
 
-    _hcalEndcapParameters = hcalEndcapParameters ;
+    replaceOwned( _hcalEndcapParameters , hcalEndcapParameters ) ;
   }
 
   void GearMgrImpl::setHcalRingParameters( CalorimeterParameters* hcalRingParameters ) {
 
-    _hcalRingParameters = hcalRingParameters ;
+    replaceOwned( _hcalRingParameters , hcalRingParameters ) ;
   }
 
   void GearMgrImpl::setLcalParameters( CalorimeterParameters* lcalParameters ) {
@@ -479,7 +485,7 @@ namespace gear{
 	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;
 
     }
-    _lcalParameters = lcalParameters ;
+    replaceOwned( _lcalParameters , lcalParameters ) ;
   }
 
   void GearMgrImpl::setLHcalParameters( CalorimeterParameters* lhcalParameters ) {
@@ -500,7 +506,7 @@ namespace gear{
 	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;
 
     }
-    _lhcalParameters = lhcalParameters ;
+    replaceOwned( _lhcalParameters , lhcalParameters ) ;
   }
 
   void GearMgrImpl::setBeamCalParameters( CalorimeterParameters* beamcalParameters ) {
@@ -521,47 +527,47 @@ namespace gear{
 	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;
 
     }
-    _beamcalParameters = beamcalParameters ;
+    replaceOwned( _beamcalParameters , beamcalParameters ) ;
   }
 
   void GearMgrImpl::setVXDParameters( ZPlanarParameters* vxdParameters ) {
 
-    _vxdParameters = vxdParameters ;
+    replaceOwned( _vxdParameters , vxdParameters ) ;
   }
 
   void GearMgrImpl::setFTDParameters( FTDParameters* ftdParameters ) {
     
-    _ftdParameters = ftdParameters ;
+    replaceOwned( _ftdParameters , ftdParameters ) ;
   }
   
   void GearMgrImpl::setSITParameters( ZPlanarParameters* sitParameters ) {
     
-    _sitParameters = sitParameters ;
+    replaceOwned( _sitParameters , sitParameters ) ;
   }
 
   void GearMgrImpl::setSETParameters( ZPlanarParameters* setParameters ) {
 
-    _setParameters = setParameters ;
+    replaceOwned( _setParameters , setParameters ) ;
   }
 
   void GearMgrImpl::setTrackerPlanesParameters( TrackerPlanesParameters* trackerplanesParameters ) {
 
-    _trackerplanesParameters = trackerplanesParameters ;
+    replaceOwned( _trackerplanesParameters , trackerplanesParameters ) ;
   }
 
   void GearMgrImpl::setSiPlanesParameters( SiPlanesParameters* siplanesParameters ) {
 
-    _siplanesParameters = siplanesParameters ;
+    replaceOwned( _siplanesParameters , siplanesParameters ) ;
   }
 
   void GearMgrImpl::setPointProperties( GearPointProperties* pointProperties) {
     
-    _pointProperties = pointProperties ;
+    replaceOwned( _pointProperties , pointProperties ) ;
   }
 
   void GearMgrImpl::setDistanceProperties( GearDistanceProperties* distanceProperties) {
  
-   _distanceProperties = distanceProperties ;
+   replaceOwned( _distanceProperties , distanceProperties ) ;
   }
   
   const std::vector<std::string>& GearMgrImpl::getGearParameterKeys() const {
-- 
2.43.0


From a8ce00c69db56b5afce4ef37b89a371db43ee0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 021/100] fix: GearMgrImpl crashed when clearing a forward
 calorimeter slot

---
 src/gearimpl/GearMgrImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index 97ddc5c..7f329d4 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -471,7 +471,7 @@ namespace gear{
 
     try {
 
-      lcalParameters->getDoubleVal("beam_crossing_angle") ;
+      if( lcalParameters ) lcalParameters->getDoubleVal("beam_crossing_angle") ;
 
     }catch( UnknownParameterException const& ){
 
@@ -492,7 +492,7 @@ namespace gear{
 
     try {
 
-      lhcalParameters->getDoubleVal("beam_crossing_angle") ;
+      if( lhcalParameters ) lhcalParameters->getDoubleVal("beam_crossing_angle") ;
 
     }catch( UnknownParameterException const& ){
 
@@ -513,7 +513,7 @@ namespace gear{
 
     try {
 
-      beamcalParameters->getDoubleVal("beam_crossing_angle") ;
+      if( beamcalParameters ) beamcalParameters->getDoubleVal("beam_crossing_angle") ;
 
     }catch( UnknownParameterException const& ){
 
-- 
2.43.0


From 9f3bbb196830a6acf1577110697661e4d131a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:23 +0000
Subject: [PATCH 022/100] fix: copying or assigning TPCParametersImpl recursed
 endlessly

---
 src/gearimpl/TPCParametersImpl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index ff2a2c8..06e924f 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -78,7 +78,7 @@ namespace gear {
 
 	// call the assignment operator of the GearParametersImpl mother class:
 	// *dynamic_cast<GearParametersImpl*>(this) = *dynamic_cast<GearParametersImpl const *>(&right);
-        this->operator = (right);
+        GearParametersImpl::operator = (right);
     }
 
     /// Destructor.
@@ -90,6 +90,9 @@ namespace gear {
     ///Assignment operator
     TPCParametersImpl & TPCParametersImpl::operator = (  const TPCParametersImpl & right)
     {
+	if ( this == &right )
+	    return *this;
+
 	cleanup();
 	copy_and_assign( right );
 
-- 
2.43.0


From f3bc7993aa6dc8ba3671f2d52d6ff927362dd752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:23 +0000
Subject: [PATCH 023/100] fix: TPCModuleImpl copies lost the named parameters,
 self assignment used freed memory

---
 src/gearimpl/TPCModuleImpl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 1f992ed..9258e03 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1175,6 +1175,9 @@ namespace gear {
 
     TPCModuleImpl & TPCModuleImpl::operator = (const TPCModuleImpl &right)
     {
+	if ( this == &right )
+	    return *this;
+
 	cleanup();
 	copy_and_assign( right);
 	return *this;
@@ -1182,6 +1185,9 @@ namespace gear {
 
     void TPCModuleImpl::copy_and_assign(const  TPCModuleImpl & right)
     {
+	// the named parameters
+	GearParametersImpl::operator = (right);
+
 	_planeExtent  = right._planeExtent;
 	_moduleExtent = right._moduleExtent;
 	_localModuleExtent = right._localModuleExtent;
-- 
2.43.0


From ffac4dbededfcafd9f56d6b6d70feb8603edc248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:27 +0000
Subject: [PATCH 024/100] fix: FTDLayerLayoutImpl negative disks only worked
 for exactly seven disks

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6535cc9..6d35599 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -78,7 +78,7 @@ int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 //FIXME: TO DEBUG!!
 	int correctedId = -1;
 	// Using the index of the vectors 0->2N-1
-	if( layerIndex > 6)
+	if( layerIndex >= getNLayers() )
 	{
 		correctedId = layerIndex-getNLayers();
 	}
@@ -91,7 +91,7 @@ int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 	{
 		std::cout << "The disk layer introduced is not in the right format. Use the description:\n " <<
 			"Z-Positives disks: 0,1,...,N-1\n " <<
-			"Z-negatives disks: 7,8,...,2N-1\n" << std::endl;
+			"Z-negatives disks: N,N+1,...,2N-1\n" << std::endl;
 	}
 
 	return correctedId;
-- 
2.43.0


From 0d608db6a435c8a2678012f68c054db2ff961194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:27 +0000
Subject: [PATCH 025/100] fix: FTDLayerLayoutImpl::getframe wrote to elements
 of an empty vector

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6d35599..5c8b3b9 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -261,9 +261,9 @@ std::vector<vframe> FTDLayerLayoutImpl::getframe( const Layer & l )
 
 	std::vector<vframe> fr;
 	fr.reserve(3);
-	fr[0] = e1;
-	fr[1] = e2;
-	fr[2] = e3;
+	fr.push_back( e1 );
+	fr.push_back( e2 );
+	fr.push_back( e3 );
 
 	return fr;
 }
-- 
2.43.0


From b7b9a31390334f41df42da4c1ef967d52d8b01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:27 +0000
Subject: [PATCH 026/100] fix: FTDLayerLayoutImpl radius, phi and thickness
 queries rejected the negative disks

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 5c8b3b9..f6507d6 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -171,11 +171,11 @@ double FTDLayerLayoutImpl::getMaxRadius(const int & layerIndex, const bool & sen
 	Layer l ;
 	if(!sensitive) 
 	{
-		l = _lVec.at( layerIndex );
+		l = _lVec.at( getEquivLayer(layerIndex) );
 	}
 	else 
 	{
-		l = _sVec.at( layerIndex );
+		l = _sVec.at( getEquivLayer(layerIndex) );
 	}
 	
 	return l.rInner+l.width;
@@ -188,10 +188,10 @@ double FTDLayerLayoutImpl::getMaxRadius(const int & layerIndex, const bool & sen
 	Layer l ;
 	if ( !sensitive ) 
 	{
-		l = _lVec.at( layerIndex ) ;
+		l = _lVec.at( getEquivLayer(layerIndex) ) ;
 	}
 	else {
-		l = _sVec.at( layerIndex ) ;
+		l = _sVec.at( getEquivLayer(layerIndex) ) ;
 	}
 
 	const double endphi = 0.0; // FIXME: PROV getPhiPetalCd(layerIndex,petalIndex,sensitive);
@@ -214,10 +214,10 @@ double FTDLayerLayoutImpl::getThicknessForAngle(const int & layerIndex,const dou
 {
 	Layer l ;
 	if (!sensitive) {
-		l = _lVec.at( layerIndex ) ;
+		l = _lVec.at( getEquivLayer(layerIndex) ) ;
 	}
 	else {
-		l = _sVec.at( layerIndex ) ;
+		l = _sVec.at( getEquivLayer(layerIndex) ) ;
 	}
 	
 	double angularThickness ;
-- 
2.43.0


From 0f807af3d3edc9dd1f6f16afbe8a2f29be851fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 027/100] fix: real numbers were rounded to ten digits in XML
 files

Rounding made layouts unreadable (pads no longer fit, full circles no longer close).
---
 include/gear/gearxml/tinyxml.h   |  5 +++++
 src/gearxml/GearParametersXML.cc |  6 +++---
 src/gearxml/tinyxml.cc           | 15 ++++++++++++++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 2882a83..bd9f5e6 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -919,6 +919,11 @@ public:
 	*/
 	void SetDoubleAttribute( const char * name, double value );
 
+	/** Number of decimals needed in scientific notation to read back the same double value:
+		9 or more where that is not sufficient.
+	*/
+	static int DoublePrecision( double value );
+
 	/** Deletes an attribute with the given name.
 	*/
 	void RemoveAttribute( const char * name );
diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index e04a9a8..0fda275 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -176,12 +176,12 @@ namespace gear {
       DoubleVec vec = gearParams->getDoubleVals( doubleVecKeys[i]  ) ;
 
       std::stringstream str ;
-      // maintain the same level of precision as for single double values
-      str << std::scientific << std::setprecision(9) ;
+      str << std::scientific ;
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
 	if( j!=0 ) 
 	  str << " " ; 
-	str << vec[j] ;
+	// maintain the same level of precision as for single double values
+	str << std::setprecision( TiXmlElement::DoublePrecision( vec[j] ) ) << vec[j] ;
       }      
 
       param.SetAttribute( "value", str.str() ) ;
diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 0217409..7890304 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -735,10 +735,23 @@ void TiXmlElement::SetAttribute( const char * name, int val )
 }
 
 
+int TiXmlElement::DoublePrecision( double val )
+{
+	char buf[256];
+	int precision = 9;
+	for( ; precision < 16; ++precision )
+	{
+		sprintf( buf, "%.*e", precision, val );
+		if ( strtod( buf, 0 ) == val )
+			break;
+	}
+	return precision;
+}
+
 void TiXmlElement::SetDoubleAttribute( const char * name, double val )
 {	
 	char buf[256];
-	sprintf( buf, "%.9e", val );
+	sprintf( buf, "%.*e", DoublePrecision( val ), val );
 	SetAttribute( name, buf );
 }
 
-- 
2.43.0


From 558da25c44782cfc1577e882078b0be73a2ecfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 028/100] fix: FixedPadAngleDiskLayoutXML wrote an attribute it
 could not read

---
 src/gearxml/FixedPadAngleDiskLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/FixedPadAngleDiskLayoutXML.cc b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
index 44d6fd0..e52f54b 100644
--- a/src/gearxml/FixedPadAngleDiskLayoutXML.cc
+++ b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
@@ -40,7 +40,7 @@ namespace gear {
     
     padRowLayout2DXML.SetDoubleAttribute("phiMax", (fixedPadLayout->getPlaneExtent())[3]);
     
-    padRowLayout2DXML.SetAttribute("nPadInRow",fixedPadLayout->getNPadsInRow());
+    padRowLayout2DXML.SetAttribute("nPadsInRow",fixedPadLayout->getNPadsInRow());
     
     return padRowLayout2DXML ;
   }
-- 
2.43.0


From 2e974d686adbc50b8bdbe1d2adffc9ff31917e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 029/100] fix: VersatileDiskRowLayoutXML ignored the pad width
 on reading

---
 src/gearxml/VersatileDiskRowLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 26a5efc..d8087ce 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -65,7 +65,7 @@ namespace gear {
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
 
-	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidtht" , "0.0" ).c_str() ) ;
+	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidth" , "0.0" ).c_str() ) ;
 	  double padHeight = atof(  getOptionalXMLAttribute( xmlRow , "padHeight" , "0.0" ).c_str() ) ;
 	  double offset    = atof(  getOptionalXMLAttribute( xmlRow , "offset"    , "0.0" ).c_str() ) ;
 	  int    repeat    = atoi(  getOptionalXMLAttribute( xmlRow , "repeat"    , "1" ).c_str() ) ;
-- 
2.43.0


From f998157262d1e37c61b0da705f262311ba2e2f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 030/100] fix: TPCModuleXML truncated the readout frequency to
 an integer

---
 src/gearxml/TPCModuleXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index 2ff34ba..b9e9061 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -99,7 +99,7 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     {
 	throw ParseException("TPCModuleXML: No readoutFrequency in TPCModule" ) ;
     }
-    double 	readoutFrequency = atoi( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
+    double 	readoutFrequency = atof( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
     
     // get the pad layout
     const TiXmlElement* padLayoutElement = moduleElement->FirstChildElement( "PadRowLayout2D" );
-- 
2.43.0


From 2aa6f36ec61ac31904bbe270d8a8cd7ff451c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 031/100] fix: TPCParametersXML did not read back the drift
 velocity it had written

---
 src/gearxml/TPCParametersXML.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 9f02c92..70a5906 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -143,6 +143,10 @@ namespace gear {
         // create the modular TPC
         modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
 
+	std::string driftVelocity = getOptionalChildElementValue( xmlElement , "driftVelocity" , "" ) ;
+	if( ! driftVelocity.empty() )
+	    modularTPC->setDriftVelocity( atof( driftVelocity.c_str() ) ) ;
+
 	// try to find a default module
 //	const TiXmlElement* defaultModuleElement = xmlElement->FirstChildElement("default");
 //	// no need to check whether the default module was found, the module parser can run without
-- 
2.43.0


From 71b678af6e004ed437f33c75aaad5a45719a3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 032/100] fix: RectangularPadRowLayout::repeatRows(0) never
 returned

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 509160b..a05af28 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -140,7 +140,7 @@ namespace gear {
     
     int nRow = _rows.size() ;
     
-    for(unsigned i=0 ; i< count-1 ; ++i ){
+    for(unsigned i=1 ; i< count ; ++i ){
       for(int j=0 ; j< nRow; ++j ){
 	
 	const Row& r = _rows[j] ;
-- 
2.43.0


From 5ed36acebecbd6943d220570a6794e3ec4ad7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:28 +0000
Subject: [PATCH 033/100] fix: RectangularPadRowLayoutXML lost rows of repeated
 patterns

The repetition was written under a name the reader does not know, and patterns
of more than one row per addRow call or rows added later were cut off.
---
 src/gearxml/RectangularPadRowLayoutXML.cc | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 5f9f91a..51ac9ba 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -29,19 +29,11 @@ namespace gear {
     padRowLayout2DXML.SetDoubleAttribute( "xMax", rectangularPadLayout->getPlaneExtent()[1] );
     padRowLayout2DXML.SetDoubleAttribute( "yMin", rectangularPadLayout->getPlaneExtent()[2] );
 
-    int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
-
-    if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetDoubleAttribute( "RepeatRows", repeatRowCount );
-
-
+    // all rows are written, including those made by repeatRows
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
     int theRow = 0 ;
 
     int rowNum  = rowNumbers.size() ; 
-    
-    if( repeatRowCount > 1  ) 
-      rowNum /=  repeatRowCount ;
 
     
     
-- 
2.43.0


From f286a6564b758c86edc6c82c1785a6b40fd9f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:25 +0000
Subject: [PATCH 034/100] fix: VersatileDiskRowLayoutXML wrote angles where it
 reads lengths

---
 src/gearxml/VersatileDiskRowLayoutXML.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index d8087ce..8f50a84 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -38,12 +38,12 @@ namespace gear {
 	TiXmlElement rowElement("row");
     
 	rowElement.SetAttribute("nPad", rowIter->getNPads() ) ;
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
+	// all lengths are written in mm, as they are read by fromXML
+	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch_mm() ) ; 
 	rowElement.SetDoubleAttribute("rowHeight", rowIter->getRowHeight() ) ; 
-	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth() ) ; 
+	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth_mm() ) ; 
 	rowElement.SetDoubleAttribute("padHeight", rowIter->getPadHeight() ) ;
-	rowElement.SetDoubleAttribute("offset", rowIter->getOffset() ) ;
+	rowElement.SetDoubleAttribute("offset", rowIter->getOffset_mm() ) ;
 
 	padRowLayout2DXML.InsertEndChild( rowElement ) ;	
     }
-- 
2.43.0


From 5f76adc714495dfa3ab7261f44b86fa2a17b6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:25 +0000
Subject: [PATCH 035/100] fix: VersatileDiskRowLayout offsets beyond a full
 turn were doubled, row radii mixed up

---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index a57813f..3c067cf 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -366,7 +366,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     if (_offset >=  2. * M_PI)
     {
 	_offset -= 2. * M_PI;
-	_offset_mm += rCentre*2. * M_PI;	
+	_offset_mm -= rCentre*2. * M_PI;	
     }
 
     _padPitch = _padPitch_mm / rCentre;
@@ -383,7 +383,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
     _phiMax = _offset + _padPitch*_nPads;
     _rMin = _rCentre - rowHeight*0.5;
-    _rMin = _rCentre + rowHeight*0.5;    
+    _rMax = _rCentre + rowHeight*0.5;    
 }
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
-- 
2.43.0


From 8120ff9433035484936764e1ba35f5fe5edfe6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:28 +0000
Subject: [PATCH 036/100] fix: CalorimeterParametersXML merged layers that
 differ slightly

---
 src/gearxml/CalorimeterParametersXML.cc | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index dad9cf6..241a29f 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -16,8 +16,6 @@
 #include <math.h>
 #include <string>
 
-#define _EPSILON 0.0001
-
 
 namespace gear {
 
@@ -319,17 +317,8 @@ namespace gear {
 
   bool CalorimeterParametersXML::isEqual( const double valueOne, const double valueTwo ) const {
 
-     // save calculating time if equal
-    if ( valueOne == valueTwo ) return true ;
-    
-    // get avg value and calculate maximum allowed delta
-    double maxDelta = fabs( ( valueOne + valueTwo ) / 2 * _EPSILON ) ;
-    
-    // check if values differ by less than maximal delta
-    bool differsLess = ( fabs( valueOne - valueTwo ) < maxDelta ) ;
-
-    // return 
-    return differsLess ;
+    // only layers with identical values may be written as one repeated layer
+    return valueOne == valueTwo ;
   }
 
 } // namespace
-- 
2.43.0


From 0e0218f9030b4c85fb8e07e8f4efdac58fd30eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:28 +0000
Subject: [PATCH 037/100] fix: SiPlanesParametersXML dropped sensitive
 rotations and x/y resolutions

---
 src/gearxml/SiPlanesParametersXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index bc5730f..f8ebbd5 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -133,6 +133,9 @@ namespace gear {
       sens.SetDoubleAttribute( "positionX" , siplanesLayers.getSensitivePositionX( i ) ) ;
       sens.SetDoubleAttribute( "positionY" , siplanesLayers.getSensitivePositionY( i ) ) ;
       sens.SetDoubleAttribute( "positionZ" , siplanesLayers.getSensitivePositionZ( i ) ) ;
+      sens.SetDoubleAttribute( "rotationXY" , siplanesLayers.getSensitiveRotationXY( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZX" , siplanesLayers.getSensitiveRotationZX( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZY" , siplanesLayers.getSensitiveRotationZY( i ) ) ;
       sens.SetDoubleAttribute( "sizeX" , siplanesLayers.getSensitiveSizeX( i ) ) ;
       sens.SetDoubleAttribute( "sizeY" , siplanesLayers.getSensitiveSizeY( i ) ) ;
       sens.SetDoubleAttribute( "thickness" , siplanesLayers.getSensitiveThickness( i ) ) ;
@@ -141,6 +144,8 @@ namespace gear {
       sens.SetDoubleAttribute( "pitchX" , siplanesLayers.getSensitivePitchX( i ) ) ;
       sens.SetDoubleAttribute( "pitchY" , siplanesLayers.getSensitivePitchY( i ) ) ;
       sens.SetDoubleAttribute( "resolution" , siplanesLayers.getSensitiveResolution( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionX" , siplanesLayers.getSensitiveResolutionX( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionY" , siplanesLayers.getSensitiveResolutionY( i ) ) ;
       sens.SetDoubleAttribute( "rotation1" , siplanesLayers.getSensitiveRotation1( i ) ) ;
       sens.SetDoubleAttribute( "rotation2" , siplanesLayers.getSensitiveRotation2( i ) ) ;
       sens.SetDoubleAttribute( "rotation3" , siplanesLayers.getSensitiveRotation3( i ) ) ;
-- 
2.43.0


From b39684091abb91ed858a8fd213beb580f473bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:28 +0000
Subject: [PATCH 038/100] fix: TrackerPlanesParametersXML wrote layers where it
 does not read them, without ID and info

---
 src/gearxml/TrackerPlanesParametersXML.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 9aca3ba..e6570d8 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -60,6 +60,9 @@ namespace gear {
       TrackerPlanesLayerImpl* layer = const_cast<gear::TrackerPlanesLayerImpl*  > (trackerplanesLayerLayout.getLayer(il));
       if( layer == 0 ) continue;
 
+      xmlLayer.SetAttribute( "ID" , layer->getID() ) ;
+      xmlLayer.SetAttribute( "info" , layer->getInfo() ) ;
+
       TrackerPlanesMaterialLayerImplVec& material = layer->getMaterialLayerVec();
 
       TrackerPlanesSensitiveLayerImplVec& sensitive = layer->getSensitiveLayerVec();
@@ -111,9 +114,11 @@ namespace gear {
            xmlLayer.InsertEndChild( xmlSensor ) ;
        }
 
-      det.InsertEndChild( xmlLayer ) ;
+      layers.InsertEndChild( xmlLayer ) ;
     }
 
+    det.InsertEndChild( layers ) ;
+
     // Assemble Detector
     GearParametersXML::getXMLForParameters( &det , &parameters ) ;
 
@@ -134,16 +139,20 @@ namespace gear {
     int nplanes = atoi( getXMLAttribute( trackerplanesNumber , "number" ).c_str() ) ;
 
 
-    // create TrackerPlanesParameters
-    TrackerPlanesParametersImpl* trackerplanesParam = new TrackerPlanesParametersImpl( setupID, intType , nplanes) ;
-
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 ) {
+      throw ParseException( "TrackerPlanesParametersXML::fromXML - element layers not found" ) ;
+    }
+
+    // create TrackerPlanesParameters
+    TrackerPlanesParametersImpl* trackerplanesParam = new TrackerPlanesParametersImpl( setupID, intType , nplanes) ;
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
-            TrackerPlanesLayerImpl* layerImpl = new TrackerPlanesLayerImpl() ;
+            TrackerPlanesLayerImpl layer ;
+            TrackerPlanesLayerImpl* layerImpl = &layer ;
 
             int layerID = atoi( getXMLAttribute( xmlLayer, "ID" ).c_str() ) ;
 	    std::cout << " layer ID " << layerID << std::endl;
-- 
2.43.0


From d5dc68fac6970ca3286dbb7684a0775f45caf1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:28 +0000
Subject: [PATCH 039/100] fix: TrackerPlanesParametersXML did not keep the
 layout type

---
 src/gearxml/TrackerPlanesParametersXML.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index e6570d8..1b16bf4 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -45,6 +45,10 @@ namespace gear {
     det.InsertEndChild( setup_id ) ;
 
 
+    TiXmlElement type( "LayoutType" ) ;
+    type.SetAttribute("type", param->getLayoutType()) ;
+    det.InsertEndChild( type ) ;
+
     TiXmlElement nplanes( "LayoutNumberOfLayers" ) ;
     nplanes.SetAttribute("number", param->getLayoutNumberOfLayers()) ;
     det.InsertEndChild( nplanes ) ;
@@ -133,7 +137,9 @@ namespace gear {
     const TiXmlElement* trackerplanesID = xmlElement->FirstChildElement( "LayoutID" ) ;
     int setupID = atoi( getXMLAttribute( trackerplanesID , "ID" ).c_str() ) ;
 
-    int intType = 0;
+    // the type is optional, older files do not have it
+    const TiXmlElement* trackerplanesType = xmlElement->FirstChildElement( "LayoutType" ) ;
+    int intType = ( trackerplanesType != 0 ) ? atoi( getXMLAttribute( trackerplanesType , "type" ).c_str() ) : 0 ;
  
     const TiXmlElement* trackerplanesNumber = xmlElement->FirstChildElement( "LayoutNumberOfLayers" ) ;
     int nplanes = atoi( getXMLAttribute( trackerplanesNumber , "number" ).c_str() ) ;
-- 
2.43.0


From bdb8e6c1433e54a7f4b32530c5a957443e248df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:37 +0000
Subject: [PATCH 040/100] fix: GearParametersXML truncated texts at the first
 blank and lost empty texts and lists

---
 src/gearxml/GearParametersXML.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 0fda275..3a50570 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -225,6 +225,7 @@ namespace gear {
       // get the parameter value  from attribute or contents of element
 
       std::string value("") ;
+      bool hasValueAttribute = true ;
       
       try{  
 	
@@ -232,6 +233,8 @@ namespace gear {
       }      
       catch( ParseException const& ) {
 	
+	hasValueAttribute = false ;
+
 	if( par->FirstChild() )
 	  value =  par->FirstChild()->Value() ;
       }
@@ -245,7 +248,7 @@ namespace gear {
 
 
 	  // fg: protect against empty value strings  in the gear file
-	  if( stringValues.size() == 0 )
+	  if( stringValues.size() == 0 && !hasValueAttribute )
 
 		  continue ;
 
@@ -254,6 +257,11 @@ namespace gear {
       std::string name = getXMLAttribute( par, "name" ) ;
       std::string type = getXMLAttribute( par, "type" ) ;
 
+      // texts and lists can be empty, numbers can not
+      if( stringValues.size() == 0 && ( type == "int" || type == "double" ) )
+
+	continue ;
+
 
       if( type == "int" ){
 
@@ -265,7 +273,7 @@ namespace gear {
 	
       } else if( type == "string" ){
 	
-	gearParams->setStringVal( name ,  stringValues[0]    )   ;
+	gearParams->setStringVal( name ,  value    )   ;
 	
       } else if( type == "IntVec" ){
 
-- 
2.43.0


From 67e1285d718e6fc5e7e84b0564cf4421577c7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:37 +0000
Subject: [PATCH 041/100] fix: SimpleMaterialXML used uninitialised or stale
 numbers for unreadable values and lost infinite lengths

---
 src/gearxml/SimpleMaterialXML.cc | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/gearxml/SimpleMaterialXML.cc b/src/gearxml/SimpleMaterialXML.cc
index 6cb75e6..ad94f4a 100644
--- a/src/gearxml/SimpleMaterialXML.cc
+++ b/src/gearxml/SimpleMaterialXML.cc
@@ -38,23 +38,11 @@ namespace gear {
 
     //std::cout << "  SimpleMaterialXML::fromXML( " << name << " ... ) " << std::endl ;
 
-    std::stringstream ss ; 
-    double dummy ;
-
-    ss << getXMLAttribute( xmlElement , "A" ) ;  ss >> dummy ; ss.clear() ;
-    double A = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "Z" ) ;  ss >> dummy ; ss.clear() ;
-    double Z = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "density" ) ;  ss >> dummy ; ss.clear() ;
-    double d = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "radLength" ) ;  ss >> dummy ; ss.clear() ;
-    double rL = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "intLength" ) ;  ss >> dummy ; ss.clear() ;
-    double iL = dummy ;
+    double A  = atof( getXMLAttribute( xmlElement , "A" ).c_str() ) ;
+    double Z  = atof( getXMLAttribute( xmlElement , "Z" ).c_str() ) ;
+    double d  = atof( getXMLAttribute( xmlElement , "density" ).c_str() ) ;
+    double rL = atof( getXMLAttribute( xmlElement , "radLength" ).c_str() ) ;
+    double iL = atof( getXMLAttribute( xmlElement , "intLength" ).c_str() ) ;
 
     SimpleMaterialImpl* sm = new SimpleMaterialImpl( name , A , Z , d , rL , iL  ) ;
 
-- 
2.43.0


From 36a5f94562791414e0f1e2be02ee5927b4ccd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 042/100] fix: TinyXML wrote texts that look like character
 references unescaped

---
 src/gearxml/tinyxml.cc | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 7890304..44c7d25 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -61,30 +61,7 @@ void TiXmlBase::PutString( const TIXML_STRING& str, TIXML_STRING* outString )
 	{
 		unsigned char c = (unsigned char) str[i];
 
-		if (    c == '&' 
-		     && i < ( (int)str.length() - 2 )
-			 && str[i+1] == '#'
-			 && str[i+2] == 'x' )
-		{
-			// Hexadecimal character reference.
-			// Pass through unchanged.
-			// &#xA9;	-- copyright symbol, for example.
-			//
-			// The -1 is a bug fix from Rob Laveaux. It keeps
-			// an overflow from happening if there is no ';'.
-			// There are actually 2 ways to exit this loop -
-			// while fails (error case) and break (semicolon found).
-			// However, there is no mechanism (currently) for
-			// this function to return an error.
-			while ( i<(int)str.length()-1 )
-			{
-				outString->append( str.c_str() + i, 1 );
-				++i;
-				if ( str[i] == ';' )
-					break;
-			}
-		}
-		else if ( c == '&' )
+		if ( c == '&' )
 		{
 			outString->append( entity[0].str, entity[0].strLength );
 			++i;
-- 
2.43.0


From 3251830154d4a1ed3161071de5eab528fb937403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 043/100] fix: TinyXML read beyond the end of texts without end
 tag

---
 src/gearxml/tinyxmlparser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 311ae5a..7bb9533 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -621,6 +621,8 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
+	if ( !p || !*p )
+		return 0;	// the end tag is missing
 	return p + strlen( endTag );
 }
 
-- 
2.43.0


From 6d9834c511a1d90c94aebbecb78b3525bc240062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 044/100] fix: TinyXML aborted on declarations cut off at the
 end of the input

---
 src/gearxml/tinyxmlparser.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 7bb9533..c73001b 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -526,11 +526,9 @@ bool TiXmlBase::StringEqual( const char* p,
 							 bool ignoreCase,
 							 TiXmlEncoding encoding )
 {
-	assert( p );
 	assert( tag );
 	if ( !p || !*p )
 	{
-		assert( 0 );
 		return false;
 	}
 
-- 
2.43.0


From 21d13589e1c43d8ce91113ca88cd7653c3414dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 045/100] fix: TinyXML never returned when the input ends with
 an incomplete UTF-8 character

---
 src/gearxml/tinyxmlparser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index c73001b..275a27f 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -276,6 +276,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// incomplete character at the end of the input
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 18d23c2387909be3a4bef1e071a0f4592412672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 046/100] fix: TinyXML replaced entities in comments, changing
 them on every copy

---
 src/gearxml/tinyxmlparser.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 275a27f..6ff51ab 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1317,8 +1317,16 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		return 0;
 	}
 	p += strlen( startTag );
-	p = ReadText( p, &value, false, endTag, false, encoding );
-	return p;
+
+	// there are no entities in comments, keep the text as it is
+	const char* end = strstr( p, endTag );
+	if ( !end )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
+		return 0;
+	}
+	value.append( p, end - p );
+	return end + strlen( endTag );
 }
 
 
-- 
2.43.0


From 4f17277060e93f13eb067571aeb892140747cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 047/100] fix: loading a directory as XML file threw
 std::length_error

---
 src/gearxml/tinyxml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 44c7d25..59016a0 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -966,8 +966,8 @@ bool TiXmlDocument::LoadFile( const char* filename, TiXmlEncoding encoding )
 
 		// If we have a file, assume it is all one big XML file, and read it in.
 		// The document parser may decide the document ends sooner than the entire file, however.
+		// (no reserve( length ) here: the length of e.g. a directory is meaningless)
 		TIXML_STRING data;
-		data.reserve( length );
 
 		const int BUF_SIZE = 2048;
 		char buf[BUF_SIZE];
-- 
2.43.0


From e2a75dee8738a554cbff0354f8223541db764e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:19 +0000
Subject: [PATCH 048/100] fix: TinyXML read beyond the end of inputs ending
 with an incomplete UTF-8 character

---
 include/gear/gearxml/tinyxml.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index bd9f5e6..312b729 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -291,8 +291,12 @@ protected:
 		}
 		else if ( *length )
 		{
-			strncpy( _value, p, *length );
-			return p + (*length);
+			// do not read beyond the end of an incomplete character
+			int n = 0;
+			for ( ; n < *length && p[n]; ++n )
+				_value[n] = p[n];
+			*length = n;
+			return p + n;
 		}
 		else
 		{
-- 
2.43.0


From 6ea3bdc77d649192e2d63af0af8afbff818eebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:19 +0000
Subject: [PATCH 049/100] fix: reading attributes of missing elements crashed

---
 src/gearxml/XMLHandlerMgr.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 710c9c1..f3f129f 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -88,7 +88,7 @@ namespace gear{
 
   std::string getXMLAttribute(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ) ? node->ToElement() : 0 ;
     if( el == 0 ) {
        std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -129,7 +129,7 @@ namespace gear{
 
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ) ? node->ToElement() : 0 ;
     if( el == 0 ) {
         std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -157,7 +157,7 @@ namespace gear{
 					  const std::string& defaultValue)
   {
       
-      const TiXmlElement* el = node->ToElement() ;
+      const TiXmlElement* el = ( node != 0 ) ? node->ToElement() : 0 ;
       if( el == 0 ) 
 	  throw ParseException("XMLParser::getAttribute not an XMLElement " ) ;
 	
-- 
2.43.0


From 131d5aa32c247556f263c5eec396f0b67021839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 050/100] fix: SiPlanesParametersXML crashed on a missing dut
 or layers element

---
 src/gearxml/SiPlanesParametersXML.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index f8ebbd5..b3bca13 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -207,6 +207,9 @@ namespace gear {
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
+      if( xmlDUT == 0 ) {
+        throw ParseException( "SiPlanesParametersXML::fromXML - element dut not found" ) ;
+      }
       const TiXmlNode* xmlDUTLad = xmlDUT->FirstChildElement( "dut_ladder" ) ;
       const TiXmlNode* xmlDUTSen = xmlDUT->FirstChildElement( "dut_sensitive" ) ;
       
@@ -242,6 +245,9 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 ) {
+      throw ParseException( "SiPlanesParametersXML::fromXML - element layers not found" ) ;
+    }
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
-- 
2.43.0


From 02fcfb42ae78410d9183fbeb3308dfddc53a23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 051/100] fix: ZPlanarParametersXML crashed on a missing layers
 element

---
 src/gearxml/ZPlanarParametersXML.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 3f0d660..57c0543 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -167,6 +167,9 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 ) {
+      throw ParseException( "ZPlanarParametersXML::fromXML - element layers not found" ) ;
+    }
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
-- 
2.43.0


From ba6b3a3c166c925b3beac7bfedebc47face2b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 052/100] fix: FTDParametersXML crashed on a missing layers
 element

---
 src/gearxml/FTDParametersXML.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 9d4efcc..44d21c8 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -104,6 +104,10 @@ namespace gear
 		
 		// layers
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+		if( xmlLayers == 0 )
+		{
+			throw ParseException( "FTDParametersXML::fromXML - element layers not found" ) ;
+		}
 		const TiXmlNode* xmlLayer = 0 ;
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
-- 
2.43.0


From 6f20c3d5696ed7f4e9fe66b34b555025322c42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 053/100] fix: RectangularPadRowLayout::addRow aborted the
 program for invalid rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index a05af28..60d9e41 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -5,7 +5,6 @@
 #include <iostream>
 #include <stdexcept>
 #include <sstream>
-#include <assert.h>
 #include <cstdlib>
 
 namespace gear {
@@ -63,13 +62,15 @@ namespace gear {
     
 
     // a few sanity checks:
-    assert( nRow > 0 ) ;
-    assert( nPad > 0 ) ;
-    assert( ! ( padWidth < 0. )  ) ;
-    assert( ! ( padHeight < 0. )  ) ;
-    assert( ! ( rowHeight < 0. )  ) ;
-    assert( ! ( leftOffset < 0. )  ) ;
-    assert( ! ( rightOffset < 0. )  ) ;
+    if( nRow <= 0 || nPad <= 0 || padWidth < 0. || padHeight < 0. 
+	|| rowHeight < 0. || leftOffset < 0. || rightOffset < 0. ) {
+
+      std::stringstream sstr ;
+      sstr << "RectangularPadRowLayout::addRow: numbers of rows ( " << nRow << " ) and pads ( " << nPad 
+	   << " ) have to be positive, lengths must not be negative ! " ;
+
+      throw Exception( sstr.str() ) ;
+    }
 
 
     double xMin = _extent[0] + leftOffset ;
-- 
2.43.0


From d2d09dfb9d8bd26065e419d811ef8c5b558172a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 054/100] fix: asking for an unknown XML handler added an empty
 one

---
 src/gearxml/XMLHandlerMgr.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index f3f129f..1f429b0 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -58,7 +58,9 @@ namespace gear{
   
   const XMLHandler* XMLHandlerMgr::getHandler( const std::string& type ) {
 
-    return _map[ type ] ;
+    XMLHandlerMap::const_iterator it = _map.find( type ) ;
+
+    return ( it != _map.end() ) ? it->second : 0 ;
   }
   
   
-- 
2.43.0


From e62cbccedd7069eb30b9ab9e1643a942b9132bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 055/100] fix: FixedPadSizeDiskLayout never returned for very
 large values of phiMax

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 65d99e1..2489260 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -51,8 +51,7 @@ namespace gear {
 
 	// wrap phi to +- 2*pi, which is the max range for phiMin and phiMax
     
-	while( _phiMax < -2.*M_PI ) {  _phiMax += 2. * M_PI  ; }
-    while( _phiMax >  2.*M_PI ) {  _phiMax -= 2. * M_PI  ; }
+    if( _phiMax < -2.*M_PI || _phiMax > 2.*M_PI ) {  _phiMax = std::fmod( _phiMax , 2. * M_PI )  ; }
 
 
     _extent.resize(4) ;
-- 
2.43.0


From 4b4afa007a3cb9b0234465d6d8da58feec6421e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:16 +0000
Subject: [PATCH 056/100] fix: FixedPadSizeDiskLayout keeps whole turns of
 phiMax as before

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 2489260..aee95fe 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -51,7 +51,10 @@ namespace gear {
 
 	// wrap phi to +- 2*pi, which is the max range for phiMin and phiMax
     
-    if( _phiMax < -2.*M_PI || _phiMax > 2.*M_PI ) {  _phiMax = std::fmod( _phiMax , 2. * M_PI )  ; }
+    if( _phiMax < -2.*M_PI || _phiMax > 2.*M_PI ) {  
+      double rest = std::fmod( _phiMax , 2. * M_PI ) ;
+      _phiMax = ( rest != 0. ) ? rest : std::copysign( 2. * M_PI , _phiMax ) ;
+    }
 
 
     _extent.resize(4) ;
-- 
2.43.0


From b4983a4ba635fa8b0e6d57db920bbccd00860fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:16 +0000
Subject: [PATCH 057/100] fix: GearXML crashed on comments named like the
 elements it looks for

---
 src/gearxml/GearXML.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d2cc492..4bcf81a 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -525,10 +525,10 @@ namespace gear{
     }
     
 //     // --- the BField ------------
-    TiXmlNode* field = root->FirstChild("BField")  ;
+    TiXmlElement* field = root->FirstChildElement("BField")  ;
     if( field != 0 ){
       ConstantBFieldXML handler ;
-      handler.fromXML( field->ToElement() , _gearMgr ) ; 
+      handler.fromXML( field , _gearMgr ) ; 
     }
 
 //-----GDML File ---------------
@@ -580,6 +580,9 @@ namespace gear{
     TiXmlNode* det = 0 ;
     while( ( det = detectors->IterateChildren( "detector", det ) )  != 0  ){
       
+      if( det->ToElement() == 0 )  // e.g. a comment
+	continue ;
+
       std::string name  =  getXMLAttribute( det, "name" )  ;
 
       std::string type("UNKOWN") ;
@@ -631,6 +634,9 @@ namespace gear{
       TiXmlNode* mat = 0 ;
       while( ( mat = materials->IterateChildren( "material", mat ) )  != 0  ){
 
+	if( mat->ToElement() == 0 )  // e.g. a comment
+	  continue ;
+
 	handler.fromXML( mat->ToElement() , _gearMgr ) ; 
       }
 
-- 
2.43.0


From 53549109da1fb5ca98501381761c9bc1af095dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:16 +0000
Subject: [PATCH 058/100] fix: GearXML handed out an incomplete geometry after
 a failed load

---
 src/gearxml/GearXML.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index 4bcf81a..f85c502 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -481,6 +481,8 @@ namespace gear{
       _gearMgr = new GearMgrImpl ;
 
     }
+
+    try {
     
     
     // parse the XML file
@@ -645,7 +647,20 @@ namespace gear{
 
 
 
+    }
+    // don't hand out an incomplete geometry if called again
+    catch( Exception& ) {
 
+      delete _gearMgr ;
+      _gearMgr = 0 ;
+      throw ;
+    }
+    catch( std::exception& e ) {
+
+      delete _gearMgr ;
+      _gearMgr = 0 ;
+      throw ParseException( "GearXML::createGearMgr : cannot create the geometry from file " + _fileName + " : " + e.what() ) ;
+    }
 
     return _gearMgr ;
   }
-- 
2.43.0


From 6b34edacab573abe0cd070c1a5675c68c4acfaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:00 +0000
Subject: [PATCH 059/100] fix: modules with unusable angles were accepted and
 never returned from a query

---
 src/gearimpl/TPCModuleImpl.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 9258e03..ca7d210 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -265,6 +265,18 @@ namespace gear {
 	    }// switch (_padRowLayout->getCoordinateType())
 	} // else (_border == 0)
 
+	// angles are brought to the wanted range turn by turn, this has to come to an end
+	const double maxAngle = 1.e6;
+	bool anglesOk = ( std::fabs( _angle ) <= maxAngle );
+	if ( _momsCoordinateType == PadRowLayout2D::POLAR )
+	    anglesOk = anglesOk && ( std::fabs( _offset[1] ) <= maxAngle );
+	if ( _padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR )
+	    anglesOk = anglesOk && ( std::fabs( _padRowLayout->getPlaneExtent()[2] ) <= maxAngle )
+		&& ( std::fabs( _padRowLayout->getPlaneExtent()[3] ) <= maxAngle )
+		&& ( std::fabs( _localModuleExtent[2] ) <= maxAngle )
+		&& ( std::fabs( _localModuleExtent[3] ) <= maxAngle );
+	if ( !anglesOk )
+	    throw gear::Exception("TPCModuleImpl::convertLocalPlaneToGlobalPlaneExtend(): angle out of range");
 
 	// now calculate the global extents
 	switch (_momsCoordinateType)
-- 
2.43.0


From 98c03ea1f41177e070dd61a1d3e59d2736d4a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 060/100] fix: MergeXML crashed on named elements without
 content present in both files

---
 src/gearxml/MergeXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f25b50a..7ff7c46 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -162,7 +162,7 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && !((loopNode->FirstChild())->ToText()) ) {
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
-- 
2.43.0


From 72c6322efa1543438e8207fbeb8d426e5e74f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 061/100] fix: MergeXML crashed on files without global or
 materials section and lost the field

---
 src/gearxml/MergeXML.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 7ff7c46..47125af 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -40,9 +40,7 @@ namespace gear{
 
     // variables
     const std::string gear = "gear" ;
-    const std::string global = "global" ;
     const std::string detectors = "detectors" ;
-    const std::string materials = "materials" ;
 
     // correct the files for dominancy
     correctDominantFile() ;
@@ -52,9 +50,9 @@ namespace gear{
     *_fileMerged = *_file2 ;
     
     // check if files are geartype
-    if ( not ( _file1->FirstChild( gear ) && _fileMerged->FirstChild( gear )
-	       && (_file1->FirstChild( gear ))->FirstChild( detectors ) 
-	       && (_fileMerged->FirstChild( gear ))->FirstChild( detectors )
+    if ( not ( _file1->FirstChildElement( gear ) && _fileMerged->FirstChildElement( gear )
+	       && (_file1->FirstChildElement( gear ))->FirstChildElement( detectors ) 
+	       && (_fileMerged->FirstChildElement( gear ))->FirstChildElement( detectors )
 	       )) {
       
       // give out information and quit
@@ -63,20 +61,22 @@ namespace gear{
     }
 
     // go to specified nodes
-    TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobal1    = nodeGear1->FirstChild( global ) ;
-    TiXmlNode* nodeDetectors1 = nodeGear1->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterials1 = nodeGear1->FirstChild( materials ) ;
+    TiXmlElement* nodeGear1      = _file1->FirstChildElement( gear ) ;
+    TiXmlElement* nodeGearMerged = _fileMerged->FirstChildElement( gear ) ;
     
-    TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobalMerged    = nodeGearMerged->FirstChild( global ) ;
-    TiXmlNode* nodeDetectorsMerged = nodeGearMerged->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterialsMerged = nodeGearMerged->FirstChild( materials ) ;
-    
-    // loop through all nodes
-    mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
-    mergeNode( nodeDetectors1, nodeDetectorsMerged ) ;
-    mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
+    // loop through all sections (global, BField, detectors, materials,...)
+    for( TiXmlElement* section = nodeGear1->FirstChildElement() ; section != 0 ; section = section->NextSiblingElement() ) {
+
+      TiXmlElement* sectionMerged = nodeGearMerged->FirstChildElement( section->Value() ) ;
+
+      if( sectionMerged == 0 ) {
+	nodeGearMerged->InsertEndChild( *section ) ;
+      }
+      else {
+	mergeAttribute( section, sectionMerged ) ;
+	mergeNode( section, sectionMerged ) ;
+      }
+    }
     
     // save file
     return _fileMerged->SaveFile( fileName ) ;
-- 
2.43.0


From 416883ffc569b211ed5d84f3354866e410472c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 062/100] fix: MergeXML crashed without input files and merged
 half-read ones

---
 src/gearxml/MergeXML.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 47125af..90e0d1f 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -42,6 +42,13 @@ namespace gear{
     const std::string gear = "gear" ;
     const std::string detectors = "detectors" ;
 
+    // both files have to be there and complete
+    if( _file1 == NULL || _file2 == NULL || _file1->Error() || _file2->Error() ) {
+
+      std::cout << "Files could not be read.\nAborted." <<std::endl ;
+      return false;
+    }
+
     // correct the files for dominancy
     correctDominantFile() ;
 
-- 
2.43.0


From 29de90b559a6fcd0bdd0d12a0dedff4907a8a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:02 +0000
Subject: [PATCH 063/100] fix: MergeXML changed the dominant file when merging
 again

---
 include/gear/gearxml/MergeXML.h |  7 -------
 src/gearxml/MergeXML.cc         | 24 +++++++-----------------
 2 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index ec01d9d..9dbc069 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -49,7 +49,6 @@ namespace gear {
     MergeXML() : 
       _file1(NULL),
       _file2(NULL),
-      _fileSwap(NULL),
       _fileMerged(NULL),
       _domFile(2),
       _name(NAME_STR) {
@@ -61,9 +60,6 @@ namespace gear {
     //checks whether file can be read in
     bool checkXML( const std::string& fileName ) ;
 
-    //get files correct: dominant will be _file2 and recessiv will be _file1
-    void correctDominantFile() ;
-
     //compare nodes
     void mergeNode( TiXmlNode* node, TiXmlNode* domNode ) ;
 
@@ -91,9 +87,6 @@ namespace gear {
     //file2
     TiXmlDocument* _file2 ;
 
-    //fileSwap - if dominant changes
-    TiXmlDocument* _fileSwap ;
-
     //fileMerged - final document
     TiXmlDocument* _fileMerged ;
 
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 90e0d1f..d547e28 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -22,17 +22,6 @@ namespace gear{
   }
 
 
-  void MergeXML::correctDominantFile() {
-    
-    if ( _domFile == 1 ) {
-      _fileSwap = new TiXmlDocument ;
-      *_fileSwap = *_file1 ;
-      *_file1 = *_file2 ;
-      *_file2 = *_fileSwap ;
-    }
-  }
-
-
   bool MergeXML::mergeFiles (const std::string& fileName) {
 
     // debug information
@@ -49,16 +38,17 @@ namespace gear{
       return false;
     }
 
-    // correct the files for dominancy
-    correctDominantFile() ;
+    // the dominant and the recessive file
+    TiXmlDocument* domFile = ( _domFile == 1 ) ? _file1 : _file2 ;
+    TiXmlDocument* recFile = ( _domFile == 1 ) ? _file2 : _file1 ;
 
     // copy all dominant information in final file
     _fileMerged = new TiXmlDocument( fileName ) ;
-    *_fileMerged = *_file2 ;
+    *_fileMerged = *domFile ;
     
     // check if files are geartype
-    if ( not ( _file1->FirstChildElement( gear ) && _fileMerged->FirstChildElement( gear )
-	       && (_file1->FirstChildElement( gear ))->FirstChildElement( detectors ) 
+    if ( not ( recFile->FirstChildElement( gear ) && _fileMerged->FirstChildElement( gear )
+	       && (recFile->FirstChildElement( gear ))->FirstChildElement( detectors ) 
 	       && (_fileMerged->FirstChildElement( gear ))->FirstChildElement( detectors )
 	       )) {
       
@@ -68,7 +58,7 @@ namespace gear{
     }
 
     // go to specified nodes
-    TiXmlElement* nodeGear1      = _file1->FirstChildElement( gear ) ;
+    TiXmlElement* nodeGear1      = recFile->FirstChildElement( gear ) ;
     TiXmlElement* nodeGearMerged = _fileMerged->FirstChildElement( gear ) ;
     
     // loop through all sections (global, BField, detectors, materials,...)
-- 
2.43.0


From 38120581585742c01ce4a5b2574da39485e222b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 064/100] fix: MergeXML refused repeated nodes of one file only
 and mixed up those that do not follow each other

---
 src/gearxml/MergeXML.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index d547e28..f79aa70 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -83,10 +83,8 @@ namespace gear{
   // compare nodes
   void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode ) {
 
-    // during the loop count occurences of same Name
-    int occurence = 0 ;
-    std::string lastName ;
-
+    // the dominant node before anything is added
+    TiXmlElement domOriginal( *domNode->ToElement() ) ;
 
     // debug information
 //     if ( node->ToComment() ) std::cout << "node is Comment." << std::endl;
@@ -110,13 +108,13 @@ namespace gear{
 
 	// check how often nodes appear
 	int countRec = countNodes( loopNode, node ) ;
-	int countDom = countNodes( loopNode, domNode ) ;
+	int countDom = countNodes( loopNode, &domOriginal ) ;
 
 	// debug information
 	//std::cout << " counter in rec: " << countRec << "   counter in dom: " << countDom << std::endl ;
 
 	// if multiple occurences and number does not match throw
-	if ( ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
+	if ( loopNode->ToElement() && ( countDom > 0 ) &&  ( countDom != countRec ) ) {
 
 	    // throw 
 	  std::stringstream s ;
@@ -131,13 +129,11 @@ namespace gear{
 	
 
 	// count occurences of same name
-	if ( lastName == getNodeName( loopNode ) ) {
-	     occurence ++ ;
-	}
-	else {
-	  occurence = 1 ;
+	int occurence = 1 ;
+	for( TiXmlNode* previous = loopNode->PreviousSibling() ; previous != 0 ; previous = previous->PreviousSibling() ) {
+	  if( ( getNodeName( previous ) == getNodeName( loopNode ) ) && ( hasAttribute(previous) == hasAttribute(loopNode) ) )
+	    occurence ++ ;
 	}
-	lastName = getNodeName( loopNode ) ;
 
 	// get the appropriate child note from dominant node
 	TiXmlNode* domChildNode = getChildNode( loopNode, domNode, occurence ) ;
-- 
2.43.0


From 3164ca5d6fe6da070fb55fb0b69f463bd80ca5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 065/100] fix: MergeXML replaced values of the dominant file
 given as text

---
 src/gearxml/MergeXML.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f79aa70..6a8c399 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -148,7 +148,9 @@ namespace gear{
 	}
 	else {
 	  // check if nodes are elements
-	  if (loopNode->ToElement() && domChildNode->ToElement() ) {
+	  // (a value given as text must not be overruled by an attribute)
+	  if (loopNode->ToElement() && domChildNode->ToElement() 
+	      && !( domChildNode->FirstChild() && domChildNode->FirstChild()->ToText() ) ) {
 
 	    // merge the attributes of these elements
 	    mergeAttribute( (loopNode->ToElement()), (domChildNode->ToElement()) ) ;
-- 
2.43.0


From 547b29773f061cb7a52520ce8dfbc3e068e9ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 066/100] fix: TinyXML accepted files cut off before an end tag

---
 src/gearxml/tinyxmlparser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 6ff51ab..5386c30 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1088,7 +1088,11 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			++p;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
 			if ( !p || !*p )
+			{
+				// We were looking for the end tag, but found nothing
+				if ( document && !document->Error() ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
 				return 0;
+			}
 
 			// We should find the end tag now
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
-- 
2.43.0


From 371558b7e51d155f51fe210858753d9ed213a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 067/100] fix: TinyXML silently dropped everything after a
 repeated attribute

---
 src/gearxml/tinyxmlparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 5386c30..6b2a49d 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1131,7 +1131,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			TiXmlAttribute* node = attributeSet.Find( attrib->Name() );
 			if ( node )
 			{
-				node->SetValue( attrib->Value() );
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				delete attrib;
 				return 0;
 			}
-- 
2.43.0


From d1dd66e6905472db095ee6ca7b5ae4510dc3acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 068/100] fix: TiXmlDocument::SaveFile reported success when
 writing had failed

---
 src/gearxml/tinyxml.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 59016a0..8c031da 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -996,8 +996,10 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		Print( fp, 0 );
-		fclose( fp );
-		return true;
+		// a full disk may show up in any write or only when closing the file
+		bool good = ( ferror( fp ) == 0 );
+		if ( fclose( fp ) != 0 ) good = false;
+		return good;
 	}
 	return false;
 }
-- 
2.43.0


From b8b4571900bda5ad33fbb3cc9fb3018ca78247b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 069/100] fix: GearXML::createXMLFile did not report that the
 file could not be written

---
 src/gearxml/GearXML.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index f85c502..d7000b9 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -463,7 +463,9 @@ namespace gear{
 
     doc.InsertEndChild ( root ) ;
 
-    doc.SaveFile() ;
+    if( ! doc.SaveFile() ) {
+      throw Exception( "GearXML::createXMLFile: could not write the file " + fileName ) ;
+    }
 
   }
 
-- 
2.43.0


From f859a121243331f1c4e6dbde3a54ec1f3ea29ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 070/100] fix: assigning an XML element or document to itself
 emptied it

---
 src/gearxml/tinyxml.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 8c031da..7176b50 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -621,6 +621,7 @@ TiXmlElement::TiXmlElement( const TiXmlElement& copy)
 
 TiXmlElement& TiXmlElement::operator=( const TiXmlElement& base )
 {
+	if ( this == &base ) return *this ;
 	ClearThis();
 	base.CopyTo( this );
 	return *this ;
@@ -902,6 +903,7 @@ TiXmlDocument::TiXmlDocument( const TiXmlDocument& copy ) : TiXmlNode( TiXmlNode
 
 TiXmlDocument& TiXmlDocument::operator=( const TiXmlDocument& copy )
 {
+	if ( this == &copy ) return *this ;
 	Clear();
 	copy.CopyTo( this );
 	return *this ;
-- 
2.43.0


From 9c651f7b5d721e1baf740e1b79434f28cd5ef24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 071/100] fix: ZPlanarParametersImpl used a wrong azimuth for
 points on the axis and on the negative y-axis

---
 src/gearimpl/ZPlanarParametersImpl.cc | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index ce5d268..55fc992 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -828,27 +828,11 @@ namespace gear{
 
   double ZPlanarParametersImpl::getPhiPoint( Vector3D p ) const {
 
-    //FG: this is the the angle with the negative y-axis 
+    //FG: this is the the angle with the y-axis (clockwise)
     // see comment at the top !
 
     // get phi of point in projection 2D
-    double pPhi = 0. ;
-    if( ( p[0] >= 0 ) && ( p[1] == 0 ) )
-      pPhi = -M_PI/2 ;
-    
-    if( ( p[0] < 0 ) && ( p[1] == 0 ) )
-      pPhi = M_PI/2 ;
-    
-    if( ( p[0] == 0 ) && ( p[1] < 0 ) ) 
-      pPhi = 0 ;
-    
-    if( ( p[0] != 0 ) && ( p[1] < 0 ) )
-      pPhi = atan( p[0] / p[1] ) + M_PI ;
-    
-    else
-      pPhi = atan( p[0] / p[1] ) ;
-    
-    pPhi = correctPhiRange( pPhi ) ;  
+    double pPhi = correctPhiRange( atan2( p[0] , p[1] ) ) ;
     
     return pPhi ;
     
-- 
2.43.0


From e2563edf3f167fc78baa4a62066a97ad50223c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 072/100] fix: ZPlanarParametersImpl missed ladders whose phi0
 is more than one turn away

---
 src/gearimpl/ZPlanarParametersImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 55fc992..67c1819 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -814,9 +814,9 @@ namespace gear{
   
   double ZPlanarParametersImpl::correctPhiRange( double Phi ) const {
     
-    if( Phi > M_PI ) {
-      return ( Phi - 2 * M_PI ) ;
-    }
+    // the angle can be off by any number of turns
+    Phi = remainder( Phi , 2 * M_PI ) ;
+
     if( Phi <= -M_PI ) {
       return ( Phi + 2 * M_PI ) ;
     } 
-- 
2.43.0


From b57a39b23e3339ec23348de114834d099f428c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 073/100] fix: outer phi range of ladders and sensitive areas
 were interchanged

---
 src/gearimpl/ZPlanarLayerLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 2be0227..495e3e3 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -95,7 +95,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getStartOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
@@ -108,7 +108,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getEndOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
-- 
2.43.0


From 38c576181db51d63da8bef10672ca3df41006599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 074/100] fix: points in ladders that do not cross their own
 normal were not found to be inside

---
 src/gearimpl/ZPlanarParametersImpl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 67c1819..071abc1 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/ZPlanarParametersImpl.h"
 #include <math.h>
+#include <algorithm>
 #include <iostream>
 
 #define _EPSILON 0.0001
@@ -93,8 +94,11 @@ namespace gear{
       
       // find out delta phi between each ladder
       double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( possibleLayer ) ;
-      double startPhi = _layer.getStartInnerPhi( possibleLayer , sensitive ) ;
-      double endPhi = _layer.getEndInnerPhi( possibleLayer , sensitive ) ;
+      // (an outer edge can be outside the phi range of the inner face if the offset is large)
+      double startPhi = std::min( _layer.getStartInnerPhi( possibleLayer , sensitive ) ,
+				  _layer.getStartOuterPhi( possibleLayer , sensitive ) ) ;
+      double endPhi = std::max( _layer.getEndInnerPhi( possibleLayer , sensitive ) ,
+				_layer.getEndOuterPhi( possibleLayer , sensitive ) ) ;
 
       // go through all ladders/sensitive
       int nLadders = _layer.getNLadders( possibleLayer ) ;
-- 
2.43.0


From 4c10a4aeff0ee4e877a7a81656a0a5cd4244e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 075/100] fix: distanceToNearestLadder did not find the nearest
 ladder if that is not around the azimuth of the point

---
 src/gearimpl/ZPlanarParametersImpl.cc | 34 ++-------------------------
 1 file changed, 2 insertions(+), 32 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 071abc1..87d3958 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <algorithm>
 #include <iostream>
+#include <limits>
 
 #define _EPSILON 0.0001
 
@@ -205,29 +206,13 @@ namespace gear{
       return origin ;
     }
     
-    // check if point is origin
-
-    if( origin.x() == p.x() &&  origin.y() == p.y() && origin.z() == p.z()  ) {
-
-       if( _layer.getNLayers() > 0 ){
-
- 	// simply use first ladder - distance d , phi0 , gap/2  :
-	 //fg: fixme: review definition of phi...
- 	return Vector3D( _layer.getLadderDistance(0) ,  -_layer.getInternalPhi0(0)  , _shellGap/2  , Vector3D::cylindrical ) ;
-       }
-
-       return origin ;
-    }
-
     //fg:  FIXME: this code needs to be cleaned up and checked 
     //  it can also probably be made a bit faster ...
 
 
-    double pPhi = getPhiPoint( p ) ;
-
     // this Point is solution
     Vector3D vPointPlane ;
-    double minDistance = 99999.99 ;
+    double minDistance = std::numeric_limits<double>::max() ;
 
     // go through all layers
     for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {
@@ -260,21 +245,6 @@ namespace gear{
 	double phi = _layer.getInternalPhi0( nearestLayer ) + i*deltaPhi ;
 	phi = correctPhiRange( phi ) ;
 
-	// check start and end phi for this layer
-	double sPhi = correctPhiRange( phi - deltaPhi ) ;
-	double ePhi = correctPhiRange( phi + deltaPhi ) ;
-			
-	// check if point is in range of ladder
-	bool isInRange = 
-	  ( ( sPhi <= pPhi )  && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi >= sPhi ) ) ;
-	
-	if ( !isInRange ) {
-	  
-	  continue ;
-	}
-	
 	// take normal vector of planes, Base, Side, Z and spacePoint
 //fg: ------- test vector3d ---------------------------
 // 	Vector3D nBase, nSide, nZ ;
-- 
2.43.0


From 4fd9ea55b9a711cdee578bb8fd409542c5b3d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 076/100] fix: intersectionLadder found no ladder at negative z

---
 src/gearimpl/ZPlanarParametersImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 87d3958..5733a21 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -443,8 +443,8 @@ namespace gear{
 	  zStart = _shellGap /2 ;
 	}
 	else {
-	  zEnd = - zEnd ;
-	  zStart = - _shellGap/2 ;
+	  zStart = - zEnd ;
+	  zEnd = - _shellGap/2 ;
 	}
 
 	// go through all ladders/sensitive
-- 
2.43.0


From 2b25738d98152e1406cd03a4db55fd30fcc6a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 077/100] fix: intersectionLadder took the origin for an
 intersection and ignored far away ladders

---
 include/gear/gearimpl/ZPlanarParametersImpl.h |  5 ++--
 src/gearimpl/ZPlanarParametersImpl.cc         | 26 ++++++++++---------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/gear/gearimpl/ZPlanarParametersImpl.h b/include/gear/gearimpl/ZPlanarParametersImpl.h
index 2668089..44591bf 100644
--- a/include/gear/gearimpl/ZPlanarParametersImpl.h
+++ b/include/gear/gearimpl/ZPlanarParametersImpl.h
@@ -185,9 +185,10 @@ private:
    */     
   Vector3D intersectionLadder( Vector3D p, Vector3D v, bool sensitive = false) const ;
 
-  /** returns the intersection point of a plane and a straight line
+  /** calculates the intersection point of a plane and a straight line
+   *  returns false if the line does not cross the plane in the direction of lineDir
    */
-  Vector3D planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir) const ;
+  bool planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir, Vector3D& interSection ) const ;
 
   /** returns the confiningRatio of a point p in a plane when the plane (r,n) is reduced to a finite square
    *  extensions in direction u (minU to maxU) and in direction v (minV to maxV)
diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 5733a21..807bdca 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -414,7 +414,7 @@ namespace gear{
   Vector3D ZPlanarParametersImpl::intersectionLadder( Vector3D p , Vector3D v , bool sensitive ) const {
     
     // return values
-    double currentLength = 99999 ;
+    double currentLength = std::numeric_limits<double>::max() ;
     Vector3D currentPoint (0. , 0. , 0. ) ;
     
     for ( int takeLayer=0 ; takeLayer < _layer.getNLayers() ; takeLayer++ ) {
@@ -491,7 +491,8 @@ namespace gear{
 	    if ( j == 1 ) spacePoint = r ;
 
 	    // get intersection point plane/line	    
-	    Vector3D interSection = planeLineIntersection( r, nBase, p, v ) ;
+	    Vector3D interSection ;
+	    if( !planeLineIntersection( r, nBase, p, v, interSection ) ) continue ;
 
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -548,7 +549,8 @@ namespace gear{
 	    r[2] = spacePoint[2] + d * nSide[2] ;
 
 	    // get intersection point plane/line
-	    Vector3D interSection = planeLineIntersection( r, nSide, p, v ) ;
+	    Vector3D interSection ;
+	    if( !planeLineIntersection( r, nSide, p, v, interSection ) ) continue ;
 	     
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -599,7 +601,8 @@ namespace gear{
 	    r[2] = spacePoint[2] + d * nZ[2] ;
 	    
 	    // get intersection point plane/line
-	    Vector3D interSection = planeLineIntersection( r, nZ, p, v ) ;
+	    Vector3D interSection ;
+	    if( !planeLineIntersection( r, nZ, p, v, interSection ) ) continue ;
 	    
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -712,7 +715,7 @@ namespace gear{
 
 
 
-  Vector3D ZPlanarParametersImpl::planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir) const {
+  bool ZPlanarParametersImpl::planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir, Vector3D& interSection ) const {
 
     // calculate distance of plane
     double distance = ( r[0]*n[0] + r[1]*n[1] + r[2]*n[2] ) / ( sqrt( n[0]*n[0] + n[1]*n[1] + n[2]*n[2] ) ) ;
@@ -726,22 +729,21 @@ namespace gear{
     
     if ( denominator == 0 ) {
       // line paralell to plane -> no intersection
-      return Vector3D ( 0. , 0. , 0. ) ;
+      return false ;
     }
 
     double t = numerator/denominator ;
 
     if( t < 0 ) {
       // intersection not in direction of line
-      return Vector3D ( 0. , 0. , 0. ) ;
+      return false ;
     }
 
-    Vector3D final ;
-    final[0] = linePoint[0] + t * lineDir[0] ;
-    final[1] = linePoint[1] + t * lineDir[1] ;
-    final[2] = linePoint[2] + t * lineDir[2] ;
+    interSection[0] = linePoint[0] + t * lineDir[0] ;
+    interSection[1] = linePoint[1] + t * lineDir[1] ;
+    interSection[2] = linePoint[2] + t * lineDir[2] ;
 
-    return final ;
+    return true ;
 
   }// function planLineIntersectin
 
-- 
2.43.0


From c3ace2c2d369f3ee6fc7e52a5b1d9728bc87414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 078/100] fix: the ID of a TrackerPlanes layout was always 0

---
 include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index 5b473d2..ed8e6b1 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -384,7 +384,7 @@ class TrackerPlanesLayerLayoutImpl : public TrackerPlanesLayerLayout {
 	  virtual ~TrackerPlanesLayerLayoutImpl() { /* nop */; }
 		
           /** */
-          virtual int getID() const { return 0; }
+          virtual int getID() const { return ID; }
 
           /** */
           virtual void setID(int value) { ID = value; }
-- 
2.43.0


From bea9fd232be42daab2016be86a15f878d43d7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 079/100] fix: a MeasurementSurfaceStore kept surfaces of
 fillers it had refused

---
 src/gearsurf/MeasurementSurfaceStore.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gearsurf/MeasurementSurfaceStore.cc b/src/gearsurf/MeasurementSurfaceStore.cc
index 691c128..49d4ae1 100644
--- a/src/gearsurf/MeasurementSurfaceStore.cc
+++ b/src/gearsurf/MeasurementSurfaceStore.cc
@@ -111,8 +111,14 @@ namespace gear{
       
       std::vector<MeasurementSurface*>::iterator it;
       
-      for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
-        this->addMeasurementSurface(*it);
+      try {
+        for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
+          this->addMeasurementSurface(*it);
+        }
+      }
+      catch (...) { // a filler that is not accepted leaves nothing behind
+        _measurement_surface_map.clear();
+        throw;
       }
       
       _store_filled = true;
-- 
2.43.0


From 8b151ba750421e75a34e59af671f40817f3e2761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 080/100] fix: printing a material changed how the stream
 prints all later numbers

---
 src/gearimpl/Util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index ca96647..d1b7c0b 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -220,6 +220,7 @@ namespace gear{
   std::ostream& operator<< (  std::ostream& s, const  SimpleMaterial& m ) {
 
     const std::streamsize old_precision = s.precision(); // save current
+    const std::ios_base::fmtflags old_flags = s.flags();
     
     s << "    " << m.getName() 
       <<  std::showpos << std::scientific << std::setprecision(8) 
@@ -228,9 +229,11 @@ namespace gear{
       << ", density [kg/m3]= "         << m.getDensity() 
       << ", radiation length [mm]= "   << m.getRadLength() 
       << ", interaction length [mm]= " << m.getIntLength() 
-      <<  std::noshowpos << std::fixed << std::setprecision(old_precision) << std::dec
+      << std::setprecision(old_precision)
       << std::endl ;
 
+    s.flags( old_flags ) ;
+
     return s ;
   }
 
-- 
2.43.0


From 949b7ee8b40d0de5b0d5713b88a008c0183268d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 081/100] fix: printing wrote beyond its line buffer for long
 texts and large values

---
 .../gearimpl/TrackerPlanesLayerLayoutImpl.h   |  9 ++--
 include/gear/gearimpl/Util.h                  |  4 ++
 src/gearimpl/Util.cc                          | 44 ++++++++++++-------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index ed8e6b1..6c81902 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -3,6 +3,7 @@
 #define GEAR_TrackerPlanesLayerLayoutImpl_H 1
 
 #include "gear/TrackerPlanesLayerLayout.h"
+#include "gearimpl/Util.h"
 #include <vector>
 #include <iostream>
 
@@ -448,12 +449,11 @@ sprintf(buffer,"|------------------|--------------------------------------------
 		for( TrackerPlanesLayerImplVec::const_iterator it = _layerVec.begin(); it != _layerVec.end(); it++ ) {  
 			TrackerPlanesLayerImpl* layer = const_cast<TrackerPlanesLayerImpl* > (&(*it)) ;
 
- 		sprintf(buffer,"|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
+ 		printFormatted(s,"|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
 			, layer->getID() 
 			, layer->getInfo().c_str()
                         ,  a,a ,a,a,a,a,a,a,a,a,a,a, a,a ,a,a,a,a,a,a,a,a,a,a, a,a,a,a,a,a 
 		);
-		s << buffer ;
 
                 TrackerPlanesMaterialLayerImplVec::const_iterator mb = layer->getMaterialLayerVec().begin();
                 TrackerPlanesMaterialLayerImplVec::const_iterator me = layer->getMaterialLayerVec().end();
@@ -461,7 +461,7 @@ sprintf(buffer,"|------------------|--------------------------------------------
                 TrackerPlanesSensitiveLayerImplVec::const_iterator se = layer->getSensitiveLayerVec().end();
 
                 for( TrackerPlanesMaterialLayerImplVec::const_iterator ml = mb ; ml < me; ml++) {
-      		  sprintf(buffer,"|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
+      		  printFormatted(s,"|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
                       , a,a
                       , (*ml).getID() 
 		      , (*ml).getInfo().c_str() 
@@ -481,7 +481,7 @@ sprintf(buffer,"|------------------|--------------------------------------------
                 }
 	
                 for( TrackerPlanesSensitiveLayerImplVec::const_iterator sl = sb ; sl < se; sl++) {
-	sprintf(buffer,"|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
+	printFormatted(s,"|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
                       , a,a,   a,a,  a,a,  a,a,  a,a,  a,a,  a,a
  		      , (*sl).getID() 
  		      , (*sl).getInfo().c_str()
@@ -503,7 +503,6 @@ sprintf(buffer,"|------------------|--------------------------------------------
 		      , (*sl).getResolutionX()
        		      , (*sl).getResolutionY()
 	);
-		  s << buffer ;
                   }
                 }
 sprintf(buffer,"|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
diff --git a/include/gear/gearimpl/Util.h b/include/gear/gearimpl/Util.h
index 8999d0d..249a086 100644
--- a/include/gear/gearimpl/Util.h
+++ b/include/gear/gearimpl/Util.h
@@ -19,6 +19,10 @@
 namespace gear {
     
 
+  /** Print to the stream with a format as for printf - the text can have any length. */
+  void printFormatted( std::ostream& s, const char* format, ... ) ;
+
+
   std::ostream& operator<< (  std::ostream& s,  const GearMgr& m ) ;
 
 
diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index d1b7c0b..fa71cce 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -9,12 +9,32 @@
 #include "gear/LayerLayout.h"
 #include "gear/SimpleMaterial.h"
 
+#include <cstdarg>
 #include <cstdio>
+#include <vector>
 #include <iostream> 
 #include <iomanip>
 
 namespace gear{
 
+  void printFormatted( std::ostream& s, const char* format, ... ) {
+
+    std::va_list args, again ;
+    va_start( args, format ) ;
+    va_copy( again, args ) ;
+
+    const int length = vsnprintf( 0, 0, format, args ) ;
+    va_end( args ) ;
+
+    if( length >= 0 ) {
+      std::vector<char> buffer( length + 1 ) ;
+      vsnprintf( &buffer[0], buffer.size(), format, again ) ;
+      s << &buffer[0] ;
+    }
+    va_end( again ) ;
+  }
+
+
   std::ostream& operator<< (  std::ostream& s, const GearMgr& m ) {
 
 
@@ -521,8 +541,7 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
-      sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
+      printFormatted(s,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 	      , l.getNLadders(i) 
 	      , l.getLadderDistance(i) 
 	      , l.getLadderWidth(i)
@@ -532,8 +551,7 @@ namespace gear{
 	      , l.getSensitiveWidth(i) 
 	      , l.getSensitiveLength(i) 
 	      , l.getSensitiveThickness(i) ) ;
-      
-      s << buffer1 ;
+
 
     }
 
@@ -580,8 +598,7 @@ namespace gear{
 	  
 	  for( int i = 0 ; i < l.getNLayers() ; i++ ) 
 	  {
-		  char buffer1[1024] ;
-		  sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
+		  printFormatted(s,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 				  , l.getNPetals(i) 
 				  , l.getSupportLengthMin(i) 
 				  , l.getSupportLengthMax(i)
@@ -591,8 +608,7 @@ namespace gear{
 				  , l.getSensitiveLengthMax(i) 
 				  , l.getSensitiveWidth(i) 
 				  , l.getSensitiveThickness(i) ) ;
-		  
-		  s << buffer1 ;
+
 		  
 	  }
 	  
@@ -662,8 +678,7 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
-      sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
+      printFormatted(s,"  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getID(i) 
 	      , l.getLayerPositionX(i) 
 	      , l.getLayerPositionY(i) 
@@ -690,8 +705,7 @@ namespace gear{
 	      , l.getSensitiveRotation2(i) 
 	      , l.getSensitiveRotation3(i) 
 	      , l.getSensitiveRotation4(i) ) ;
-      
-      s << buffer1 ;
+
 
     }
 
@@ -718,8 +732,7 @@ namespace gear{
       sprintf(buffer,"  |----------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
       s << buffer ;
       
-      char buffer1[1024] ;
-      sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
+      printFormatted(s,"  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getDUTID() 
 	      , l.getDUTPositionX() 
 	      , l.getDUTPositionY() 
@@ -742,8 +755,7 @@ namespace gear{
 	      , l.getDUTSensitiveRotation2() 
 	      , l.getDUTSensitiveRotation3() 
 	      , l.getDUTSensitiveRotation4() ) ;
-      
-      s << buffer1 ;
+
       
       sprintf(buffer,"  |----------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
       s << buffer ;
-- 
2.43.0


From aebeae942644f882e9651ae96ef31bc910961035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 082/100] fix: TPC cathode position no longer depends on
 modules without z position

The cathode was computed from the first module of each half only. A module
without z position is in both halves, so if it came first the position was
not updated, and kept whatever value an earlier addModule() had left.
---
 src/gearimpl/TPCParametersImpl.cc | 50 ++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index 06e924f..002c527 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -505,40 +505,54 @@ namespace gear {
 	addModule( new TPCModuleImpl(0, padLayout, _coordinateType ));
     }
 
+    /// The first of the modules which has a z position, NULL if there is none.
+    /// Modules without z position are in both halves and say nothing about the anode.
+    static const TPCModule * firstModuleWithZPosition( const std::vector<TPCModule *> & modules )
+    {
+	for ( size_t i = 0 ; i < modules.size() ; ++i )
+	{
+	    try
+	    {
+		modules[i]->getZPosition();
+		return modules[i];
+	    }
+	    catch ( TPCModule::NoZPositionException & )
+	    {
+	    }
+	}
+	return 0;
+    }
+
     void TPCParametersImpl::setCathodePosition()
   {
     // Calculate the correct cathode position.
     // This is called when a module is added and the drift length has changed
-    try
+    const TPCModule * negativeModule = firstModuleWithZPosition( _modulesNegativeHalfTPC );
+    const TPCModule * positiveModule = firstModuleWithZPosition( _modulesPositiveHalfTPC );
+
+    if ( negativeModule )
     {
-      if ( ! _modulesNegativeHalfTPC.empty() )
-      {
-	if ( ! _modulesPositiveHalfTPC.empty() )
+	if ( positiveModule )
 	// There are modules in both half TPCs, take the middle between the anodes
 	{
 	  // all modules in one half are assumed to be at the same z position
 	  // otherwise only one drift length does not make sense
-	  _cathodePosition = ( _modulesNegativeHalfTPC[0]->getZPosition() 
-			       + _modulesPositiveHalfTPC[0]->getZPosition() ) /2. ;
+	  _cathodePosition = ( negativeModule->getZPosition() 
+			       + positiveModule->getZPosition() ) /2. ;
 	}
 	else // there is only the negative half TPC
 	{
-	  _cathodePosition = _modulesNegativeHalfTPC[0]->getZPosition() + _maxDriftLength;
+	  _cathodePosition = negativeModule->getZPosition() + _maxDriftLength;
 	}
-      }
-      else if ( ! _modulesPositiveHalfTPC.empty() )
-      {
-	// there is only the positive half TPC
-	_cathodePosition = _modulesPositiveHalfTPC[0]->getZPosition() - _maxDriftLength;
-      }
-      // else: there are no modules, leave the cathode position where it is (should be 0. )
     }
-    catch ( TPCModule::NoZPositionException & )
+    else if ( positiveModule )
     {
-      // leave the z position as is (should be 0.) The modules are in both end caps
-      // anyway, so you will always get the module you want
+	// there is only the positive half TPC
+	_cathodePosition = positiveModule->getZPosition() - _maxDriftLength;
     }
-
+    // else: there are no modules with a z position, leave the cathode position where it
+    // is (should be 0.) The modules are in both end caps anyway, so you will always get
+    // the module you want
   }
 
 } // namespace gear
-- 
2.43.0


From 70d8b2956628dfd628dd1b68ceed8f0014b34b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:32 +0000
Subject: [PATCH 083/100] fix: pad layouts whose rows or pads do not fit the
 pad index are refused

Pad indices hold row and pad number in 16 bit each. Layouts with more rows or
pads were accepted, and different pads then shared one index.
---
 include/gear/gearimpl/Util.h            | 4 ++++
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 +++-
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 3 +++
 src/gearimpl/RectangularPadRowLayout.cc | 6 ++++++
 src/gearimpl/Util.cc                    | 7 +++++++
 src/gearimpl/VersatileDiskRowLayout.cc  | 2 ++
 6 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/gear/gearimpl/Util.h b/include/gear/gearimpl/Util.h
index 249a086..c2f1dfd 100644
--- a/include/gear/gearimpl/Util.h
+++ b/include/gear/gearimpl/Util.h
@@ -22,6 +22,10 @@ namespace gear {
   /** Print to the stream with a format as for printf - the text can have any length. */
   void printFormatted( std::ostream& s, const char* format, ... ) ;
 
+  /** Pad indices hold the row and pad number in 16 bit each: throws an Exception if a pad
+   *  layout with the given number of rows and pads in a row does not fit into this. */
+  void checkPadIndexRange( double nRows , double nPadsInRow ) ;
+
 
   std::ostream& operator<< (  std::ostream& s,  const GearMgr& m ) ;
 
diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index f18d5ec..74eb4f1 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -1,4 +1,5 @@
 #include "gearimpl/FixedPadAngleDiskLayout.h"
+#include "gearimpl/Util.h"
 
 #include <cmath>
 #include <math.h>
@@ -34,7 +35,8 @@ namespace gear {
 	  _phiMax( phiMax ),
 	  _nPadsInRow( nPadsInRow ) 
   {
-    
+    checkPadIndexRange( nRow , nPadsInRow ) ;
+
     _rowHeight =  ( rMax - rMin ) / _nRow ;
     _padAngle  =  (phiMax - phiMin) / nPadsInRow;
 
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index aee95fe..0378917 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -1,4 +1,5 @@
 #include "gearimpl/FixedPadSizeDiskLayout.h"
+#include "gearimpl/Util.h"
 
 #include <cmath>
 #include <math.h>
@@ -67,6 +68,7 @@ namespace gear {
 
     //int nr = (int) std::floor ( ( rMax - rMin ) /  _padHeight ) ;
     //int nr = (int) ( ( rMax - rMin ) /  _padHeight ) ;
+    checkPadIndexRange( ( nRow > 0 ) ? nRow : ( rMax + 0.01  - rMin ) /  _padHeight , 0 ) ;
     int nr = ( ( rMax + 0.01  - rMin ) /  _padHeight ) ;
 
     _nRow = ( nRow > 0 ) ? nRow : nr ;
@@ -106,6 +108,7 @@ namespace gear {
 
       double u = row.RCenter * _phiMax  ;
 
+      checkPadIndexRange( _nRow , u / (_padWidth + padGap ) ) ;
       row.NPad = static_cast<int>( std::floor( u / (_padWidth + padGap )  ) );
 
       row.PhiPad = _phiMax  / row.NPad ;
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 60d9e41..50e0cdf 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -1,4 +1,5 @@
 #include "gearimpl/RectangularPadRowLayout.h"
+#include "gearimpl/Util.h"
 
 #include <cmath>
 #include <math.h>
@@ -73,6 +74,9 @@ namespace gear {
     }
 
 
+    checkPadIndexRange( (double) _rows.size() + nRow , nPad ) ;
+
+
     double xMin = _extent[0] + leftOffset ;
     double xMax = _extent[1] - rightOffset ;
 
@@ -137,6 +141,8 @@ namespace gear {
     if( _repeatRows > 0  ) // ignore all but first call
       return ;
 
+    checkPadIndexRange( (double) _rows.size() * count , 0 ) ;
+
     _repeatRows = count ;
     
     int nRow = _rows.size() ;
diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index fa71cce..fad1945 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -17,6 +17,13 @@
 
 namespace gear{
 
+  void checkPadIndexRange( double nRows , double nPadsInRow ) {
+
+    // the index is not to become negative
+    if( ! ( nRows <= 0x7fff ) || ! ( nPadsInRow <= 0x10000 ) )
+      throw Exception( "pad layouts can have at most 32767 rows of 65536 pads ! " ) ;
+  }
+
   void printFormatted( std::ostream& s, const char* format, ... ) {
 
     std::va_list args, again ;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 3c067cf..7b12d66 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -1,4 +1,5 @@
 #include "gearimpl/VersatileDiskRowLayout.h"
+#include "gearimpl/Util.h"
 
 #include <cmath>
 #include <iostream>
@@ -69,6 +70,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 	throw Exception(routineName+"Error, row height must be larger than 0!");
     if ( repeat <= 0)
 	throw Exception(routineName+"Error, number of repitions must be positive!");
+    checkPadIndexRange( (double) _rows.size() + repeat , nPads ) ;
 
     if (padWidth == 0.)
 	padWidth = padPitch;
-- 
2.43.0


From 923aaef4d9954c9e6509672cd8192f021fc76b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 084/100] fix: distance to a pad or module is not NaN at its
 corners

The squared distance to a corner could become slightly negative by rounding, so
that its square root was not a number.
---
 src/gearimpl/FixedDiskLayoutBase.cc    |  9 +++++----
 src/gearimpl/TPCModuleImpl.cc          | 11 ++++++-----
 src/gearimpl/VersatileDiskRowLayout.cc |  7 +++----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 3a29e8f..e8cae03 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -1,6 +1,7 @@
 #include "gearimpl/FixedDiskLayoutBase.h"
 
 #include <cmath>
+#include <algorithm>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -62,12 +63,12 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	    {
 		// you can check this formula by calculaing sqrt( (x-x_min)^2 - (y-y_min)^2 )
 		// where x_min = r_min cos(phi_min) etc.
-		distance_phiMin = sqrt( r*r + r_min*r_min -2 * r_min * r_intersect_phiMin );
+		distance_phiMin = sqrt( std::max( 0., r*r + r_min*r_min -2 * r_min * r_intersect_phiMin ) );
 	    }
 	    else
 	    if ( r_intersect_phiMin > r_max ) 
 	    {
-		distance_phiMin = sqrt( r*r + r_max*r_max -2 * r_max * r_intersect_phiMin );
+		distance_phiMin = sqrt( std::max( 0., r*r + r_max*r_max -2 * r_max * r_intersect_phiMin ) );
 	    }
 	    else
 		distance_phiMin =  fabs( m_phiMin );
@@ -82,12 +83,12 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	    {
 		// you can check this formula by calculaing sqrt( (x-x_max)^2 - (y-y_max)^2 )
 		// where x_max = r_min cos(phi_max) etc.
-		distance_phiMax = sqrt( r*r + r_min*r_min -2 * r_min * r_intersect_phiMax );
+		distance_phiMax = sqrt( std::max( 0., r*r + r_min*r_min -2 * r_min * r_intersect_phiMax ) );
 	    }
 	    else
 	    if ( r_intersect_phiMax > r_max ) 
 	    {
-		distance_phiMax = sqrt( r*r + r_max*r_max -2 * r_max * r_intersect_phiMax );
+		distance_phiMax = sqrt( std::max( 0., r*r + r_max*r_max -2 * r_max * r_intersect_phiMax ) );
 	    }
 	    else
 		distance_phiMax =  fabs( m_phiMax );
diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index ca7d210..62c3e27 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -2,6 +2,7 @@
 #include "gearimpl/FixedPadSizeDiskLayout.h"
 #include "gearimpl/RectangularPadRowLayout.h"
 #include <cmath>
+#include <algorithm>
 #include <complex>
 #include <iostream>
 #include <limits>
@@ -1411,13 +1412,13 @@ namespace gear {
 		{
 		    // you can check this formula by calculaing sqrt( (x-x_min)^2 - (y-y_min)^2 )
 		    // where x_min = r_min cos(phi_min) etc.
-		    distance_phiMin = sqrt( localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMin );
+		    distance_phiMin = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMin ) );
 		}
 		else
 		    if ( r_intersect_phiMin > _localModuleExtent[1] ) 
 		    {
-			distance_phiMin = sqrt( localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] 
-						-2 * _localModuleExtent[1] * r_intersect_phiMin );
+			distance_phiMin = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] 
+						-2 * _localModuleExtent[1] * r_intersect_phiMin ) );
 		    }
 		    else
 			distance_phiMin =  fabs( m_phiMin );
@@ -1432,12 +1433,12 @@ namespace gear {
 		{
 		    // you can check this formula by calculaing sqrt( (x-x_max)^2 - (y-y_max)^2 )
 		    // where x_max = r_min cos(phi_max) etc.
-		    distance_phiMax = sqrt( localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMax );
+		    distance_phiMax = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMax ) );
 		}
 		else
 		    if ( r_intersect_phiMax > _localModuleExtent[1] ) 
 		    {
-			distance_phiMax = sqrt( localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] -2 * _localModuleExtent[1] * r_intersect_phiMax );
+			distance_phiMax = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] -2 * _localModuleExtent[1] * r_intersect_phiMax ) );
 		    }
 		    else
 			distance_phiMax =  fabs( m_phiMax );
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 7b12d66..dfe6f3e 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -2,6 +2,7 @@
 #include "gearimpl/Util.h"
 
 #include <cmath>
+#include <algorithm>
 #include <iostream>
 //#include <stdexcept>
 #include <sstream>
@@ -484,8 +485,7 @@ double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_min - phi);
 	
 	return sqrt(
-		distanceToCorner[0] > distanceToCorner[1] ?
-		distanceToCorner[1] : distanceToCorner[0]
+		std::max( 0., std::min( distanceToCorner[0], distanceToCorner[1] ) )
 	);
 }
 
@@ -513,8 +513,7 @@ double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
 	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_max - phi);
 
 	return sqrt(
-		distanceToCorner[0] > distanceToCorner[1] ?
-		distanceToCorner[1] : distanceToCorner[0]
+		std::max( 0., std::min( distanceToCorner[0], distanceToCorner[1] ) )
 	);
 }    
 
-- 
2.43.0


From eb5d1eb3df609ac16d3bf48a82b536c5b23513f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:04 +0000
Subject: [PATCH 085/100] fix: getNearestPad of rectangular layouts could loop
 forever at the edge of a row

For points that are on the edge between two rows within rounding errors the search
jumped back and forth between them. The rows that are excluded are now remembered.
---
 src/gearimpl/RectangularPadRowLayout.cc | 31 ++++++++++---------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 50e0cdf..57b083d 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -372,12 +372,14 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 	// make a best guess at the starting row by assuming all rows are the same height
     int row_number = (int)( round( (_rows.size() - 1) * (y - _extent[2]) / (_extent[3] - _extent[2]) ) );
 
-    // do a binary search for the nearest row
+    // do a binary search for the nearest row, it can only be one in the range first_row to last_row
+    int first_row = 0 ;
+    int last_row  = (int)_rows.size() - 1 ;
 	while( true ) {
 
-		// stay in the layout, also in case of rounding errors in the guess
-		if( row_number < 0 ) row_number = 0 ;
-		if( row_number > (int)_rows.size() - 1 ) row_number = (int)_rows.size() - 1 ;
+		// stay in the range, also in case of rounding errors in the guess
+		if( row_number < first_row ) row_number = first_row ;
+		if( row_number > last_row  ) row_number = last_row ;
 
 		const Row &row = _rows[row_number];
 		const double y_displacement = y - row.Center;
@@ -389,7 +391,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			// this is the correct row
 			break;
 		}
-		else if( fabs(y_displacement) <= (row.Height/2) ) {
+		else if( fabs(y_displacement) <= (row.Height/2) || row_number == ( (y_displacement < 0)? first_row: last_row ) ) {
+			// this is the row, or all the other ones have been excluded: y is at the edge of this 
+			// row within numerical precision
 			
 			// check the next row of pads, it could be closer to them then this row
 			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
@@ -414,33 +418,22 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
 			if( y_displacement < 0 ) {
 				
+				last_row = row_number - 1;
 				remaining_rows = row_number;
 				remaining_distance = row.Center - _extent[2] - (row.Height/2.);
 				offset = y_displacement + (row.Height/2);
 			}
 			else {
 				
+				first_row = row_number + 1;
 				remaining_rows = _rows.size() - row_number - 1;
 				remaining_distance = _extent[3] - row.Center - (row.Height/2.);
 				offset = y_displacement - (row.Height/2);
 			}
 
-			// no row left in this direction: y is at the edge of this row within numerical precision
-			if( remaining_rows == 0 || !( remaining_distance > 0. ) )
-			  break;
-
-			const double param = remaining_rows * (offset / remaining_distance);
+			const double param = ( remaining_distance > 0. ) ? remaining_rows * (offset / remaining_distance) : 0. ;
 			const int delta_row = (int)((param < 0)? floor(param): ceil(param));
 
-			if (delta_row==0)
-			{
-			  // hm, something went wrong in the logic. The next best guess should not be the
-			  // same row. This can happen due to rounding errors. So within numerical precision
-			  // we already found the nearest row. Breaking here avouids an endless loop.
-			  std::cout << "delta_row is 0, breaking loop" << std::endl;
-			  break;
-			}
-
 			row_number += delta_row;
 		}
 		
-- 
2.43.0


From d939415739a369f5ab79970ba07a24cc4fd6d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:46 +0000
Subject: [PATCH 086/100] fix: nearest pad at the very edge of a row does not
 exist or is refused

Rounding errors could give pad number -1 (versatile rows) or one beyond the last
pad (rectangular rows). An empty rectangular layout was accessed out of bounds.
---
 src/gearimpl/RectangularPadRowLayout.cc | 9 +++++++++
 src/gearimpl/VersatileDiskRowLayout.cc  | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 57b083d..6954445 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -355,6 +355,9 @@ int RectangularPadRowLayout::getNearestPadOld(double x, double y) const {
 
       padNum =  (int) ( ( x - (  _extent[0] + row.LeftOffset ) )  /  row.WidthPerPad ) ;  
 
+      if( padNum > row.NPad - 1 ) // rounding errors at the edge
+	padNum = row.NPad - 1 ;
+
     }
 
     return getPadIndex( rowNum , padNum ) ;
@@ -363,6 +366,9 @@ int RectangularPadRowLayout::getNearestPadOld(double x, double y) const {
 
 int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
+    if( _rows.empty() )
+      throw Exception( "RectangularPadRowLayout::getNearestPad(): no pad rows defined." ) ;
+
     //  move from outside of pad plane to edge of pad plane
     if(  x < _extent[0] ) x =  _extent[0] ;
     if(  x > _extent[1] ) x =  _extent[1] ;
@@ -459,6 +465,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
       pad_number =  (int) ( ( x - (  _extent[0] + row.LeftOffset ) )  /  row.WidthPerPad ) ;  
 
+      if( pad_number > row.NPad - 1 ) // rounding errors at the edge
+	pad_number = row.NPad - 1 ;
+
     }
 
     return getPadIndex( row_number , pad_number ) ;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index dfe6f3e..f444a94 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -405,6 +405,8 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
 	if (padNumber >= _nPads) // rounding errors at the edge
 	    padNumber = _nPads - 1;
+	if (padNumber < 0)
+	    padNumber = 0;
 	
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
     }
-- 
2.43.0


From 9ca38b1bb761c7447209afb81f6ee29c96f93e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 087/100] fix: writing detectors of unknown technology reported
 success but made an unreadable file

---
 src/gearxml/FTDParametersXML.cc      | 2 +-
 src/gearxml/SiPlanesParametersXML.cc | 2 +-
 src/gearxml/ZPlanarParametersXML.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 44d21c8..569219f 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -52,7 +52,7 @@ namespace gear
 					strType = "STRIP" ;
 					break ;
 				default :
-					strType = "Unknown" ;
+					throw Exception( "FTDParametersXML::toXML unknown sensorType - the file could not be read back." ) ;
 			}
 			layer.SetAttribute( "sensorType", strType );
 			layer.SetDoubleAttribute( "petalOpenningAngle" , ftdLayers.getPhiHalfDistance(i) ) ;
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index b3bca13..3f6befc 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -53,7 +53,7 @@ namespace gear {
       strType = "TelescopeWithoutDUT" ;
       break ;
     default :
-      strType = "Unknown" ;
+      throw Exception( "SiPlanesParametersXML::toXML unknown type of setup - the file could not be read back." ) ;
     }
 
     type.SetAttribute( "type", strType ) ;
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 57c0543..8a4ba14 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -48,7 +48,7 @@ namespace gear {
       break ;
 
     default :
-      strType = "Unknown" ;
+      throw Exception( "ZPlanarParametersXML::toXML unknown technology - the file could not be read back." ) ;
 
     }
 
-- 
2.43.0


From c7cfe6e96e21d02f96b8989651c5e65ac29dc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 088/100] fix: printing tracker planes showed the content of an
 unset buffer

---
 include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index 6c81902..3f660e6 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -477,7 +477,6 @@ sprintf(buffer,"|------------------|--------------------------------------------
  		      , (*ml).getRadLength()
 	              , a,a ,a,a,a,a,a,a,a,a,a,a, a,a,a,a,a,a
  		  ); 
-	   	  s << buffer ;
                 }
 	
                 for( TrackerPlanesSensitiveLayerImplVec::const_iterator sl = sb ; sl < se; sl++) {
-- 
2.43.0


From 76bdcae0a465e295d647a2491b2a5d377a69807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 089/100] fix: comments and texts that read like an element
 name were taken for that element

---
 src/gearxml/CalorimeterParametersXML.cc   | 3 +++
 src/gearxml/FTDParametersXML.cc           | 3 +++
 src/gearxml/GearParametersXML.cc          | 3 +++
 src/gearxml/GearXML.cc                    | 8 ++++----
 src/gearxml/RectangularPadRowLayoutXML.cc | 3 +++
 src/gearxml/SiPlanesParametersXML.cc      | 3 +++
 src/gearxml/TPCParametersXML.cc           | 5 ++---
 src/gearxml/TrackerPlanesParametersXML.cc | 9 +++++++++
 src/gearxml/VersatileDiskRowLayoutXML.cc  | 3 +++
 src/gearxml/ZPlanarParametersXML.cc       | 3 +++
 10 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index 241a29f..8ccb5b5 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -230,6 +230,9 @@ namespace gear {
     const TiXmlNode* layer = 0 ;
     while( ( layer = xmlElement->IterateChildren( "layer", layer ) )  != 0  ){
 
+      if( layer->ToElement() == 0 )  // e.g. a comment
+        continue ;
+
       int    nLayer            = atoi(  getXMLAttribute( layer , "repeat" ) .c_str() ) ;
       double thickness         = atof(  getXMLAttribute( layer , "thickness" ) .c_str() ) ;
       double absorberThickness = atof(  getXMLAttribute( layer , "absorberThickness" ) .c_str() ) ;
diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 569219f..e401264 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -112,6 +112,9 @@ namespace gear
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
 		{
+
+			if( xmlLayer->ToElement() == 0 )  // e.g. a comment
+				continue ;
 			int nPetals    = atoi( getXMLAttribute( xmlLayer , "nPetals" ).c_str() );
                         int nSensors   = atoi( getXMLAttribute( xmlLayer , "nSensors" ).c_str() );
                         bool isDoubleSided = atoi( getXMLAttribute( xmlLayer , "isDoubleSided" ).c_str() );
diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 3a50570..23c6552 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -219,6 +219,9 @@ namespace gear {
 
     const TiXmlNode* par = 0 ;
     while( ( par = xmlElement->IterateChildren( "parameter", par ) )  != 0  ){
+
+      if( par->ToElement() == 0 )  // e.g. a comment
+        continue ;
       
       
       
diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d7000b9..82daf2e 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -516,13 +516,13 @@ namespace gear{
     }
     
 
-    TiXmlNode* global =  root->FirstChild("global") ;
+    TiXmlNode* global =  root->FirstChildElement("global") ;
     if( global != 0 ){
       std::string detName  =  getXMLAttribute( global, "detectorName" )  ;
       _gearMgr->setDetectorName( detName  ) ;
     }    
     
-    TiXmlNode* detectors = root->FirstChild("detectors")  ;
+    TiXmlNode* detectors = root->FirstChildElement("detectors")  ;
     if( detectors == 0 ){
       throw ParseException( std::string( "GearXML::createGearMgr : no detectors tag found in  ") 
 			   + _fileName  ) ;
@@ -536,7 +536,7 @@ namespace gear{
     }
 
 //-----GDML File ---------------
-    TiXmlNode* gdmlfile = root->FirstChild("GDMLFile")  ;
+    TiXmlNode* gdmlfile = root->FirstChildElement("GDMLFile")  ;
     
     if( gdmlfile != 0 ){
       
@@ -629,7 +629,7 @@ namespace gear{
     
     //----------------------
 
-    TiXmlNode* materials = root->FirstChild("materials")  ;
+    TiXmlNode* materials = root->FirstChildElement("materials")  ;
     
     if( materials != 0 ){
       
diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 51ac9ba..358a8ab 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -80,6 +80,9 @@ namespace gear {
     const TiXmlNode* row = 0 ;
     while( ( row = xmlElement->IterateChildren( "row", row ) )  != 0  ){
 
+      if( row->ToElement() == 0 )  // e.g. a comment
+        continue ;
+
       int    nRow             = atoi(  getOptionalXMLAttribute( row , "repeat" , "1" ) .c_str() ) ;
 
       int    nPad             = atoi(  getXMLAttribute( row , "nPad"   ) .c_str() ) ;
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index 3f6befc..04c7588 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -252,6 +252,9 @@ namespace gear {
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
+    if( xmlLayer->ToElement() == 0 )  // e.g. a comment
+      continue ;
+
     const TiXmlNode* xmlLad = xmlLayer->FirstChildElement( "ladder" ) ;
     const TiXmlNode* xmlSen = xmlLayer->FirstChildElement( "sensitive" ) ;
     
diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 70a5906..12fb6f9 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -153,9 +153,8 @@ namespace gear {
 //	std::cout << "GEARDEBUG: " << "defaultModuleElement = "<<defaultModuleElement<<  std::endl;
 	
 	// loop the modules section (there might be mor than one)
-	const TiXmlElement* modulesElement=0;
-	while( ( modulesElement =dynamic_cast<const TiXmlElement*>(
-		     xmlElement->IterateChildren( "modules", modulesElement ) )  )  != 0  )
+	for( const TiXmlElement* modulesElement = xmlElement->FirstChildElement( "modules" ) ;
+	     modulesElement != 0 ; modulesElement = modulesElement->NextSiblingElement( "modules" ) )
 	{
 	    //std::cout << "GEARDEBUG: " << "TPCParametersXML::fromXML : found modules section" << std::endl;
 	    
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 1b16bf4..10d2bf1 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -157,6 +157,9 @@ namespace gear {
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
+            if( xmlLayer->ToElement() == 0 )  // e.g. a comment
+              continue ;
+
             TrackerPlanesLayerImpl layer ;
             TrackerPlanesLayerImpl* layerImpl = &layer ;
 
@@ -171,6 +174,9 @@ namespace gear {
             const TiXmlNode* xmlLad = 0 ;
             while( ( xmlLad = xmlLayer->IterateChildren( "ladder" , xmlLad ) ) != 0 ) {
 
+		    if( xmlLad->ToElement() == 0 )  // e.g. a comment
+		      continue ;
+
 		    int lID        = atoi( getXMLAttribute( xmlLad , "ID" ).c_str() ) ;
 		    std::string lInfo = getOptionalXMLAttribute( xmlLad, "info", "" ).c_str()  ;
 		    double lPosX   = atof( getOptionalXMLAttribute( xmlLad , "positionX", "0."  ).c_str() ) ;
@@ -192,6 +198,9 @@ namespace gear {
             const TiXmlNode* xmlSen = 0 ;
             while( ( xmlSen = xmlLayer->IterateChildren( "sensitive" , xmlSen ) ) != 0 ) {
 
+		    if( xmlSen->ToElement() == 0 )  // e.g. a comment
+		      continue ;
+
 		    int sID        = atoi( getXMLAttribute( xmlSen , "ID" ).c_str() ) ;
 		    std::string sInfo = getOptionalXMLAttribute( xmlSen, "info", "" ).c_str()  ;
 		    double sPosX   = atof( getOptionalXMLAttribute( xmlSen , "positionX", "0." ).c_str() ) ;
diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 8f50a84..bcb671a 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -61,6 +61,9 @@ namespace gear {
       const TiXmlNode* xmlRow = 0 ;
       while( ( xmlRow = xmlLayout->IterateChildren( "row", xmlRow ) )  != 0  ){
 
+	  if( xmlRow->ToElement() == 0 )  // e.g. a comment
+	    continue ;
+
 	  int    nPad      =  atoi(  getXMLAttribute( xmlRow , "nPad" ) .c_str() ) ;
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 8a4ba14..ea95e1c 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -173,6 +173,9 @@ namespace gear {
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+
+      if( xmlLayer->ToElement() == 0 )  // e.g. a comment
+        continue ;
       
       int nLadders = atoi( getXMLAttribute( xmlLayer , "nLadders" ).c_str() ) ;
       double phi0  = atof( getXMLAttribute( xmlLayer , "phi0"     ).c_str() ) ;
-- 
2.43.0


From 2e3b5ab3074ebb44a6b2e73069f310a21d5bdc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 090/100] fix: an end tag with white space before its closing
 bracket was refused

---
 src/gearxml/tinyxmlparser.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 6b2a49d..aaca35d 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1056,7 +1056,6 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
     TIXML_STRING endTag ("</");
 	endTag += value;
-	endTag += ">";
 
 	// Check for and read attributes. Also look for an empty
 	// tag or an end tag.
@@ -1095,10 +1094,15 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			}
 
 			// We should find the end tag now
+			// (there may be white space before its closing bracket)
+			const char* pEnd = 0;
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
 			{
-				p += endTag.length();
-				return p;
+				pEnd = SkipWhiteSpace( p + endTag.length(), encoding );
+			}
+			if ( pEnd && *pEnd == '>' )
+			{
+				return ( pEnd + 1 );
 			}
 			else
 			{
-- 
2.43.0


From 875848019a80952dbb5fb7bab863475ec7882157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 091/100] fix: a comment before the text of a parameter was
 taken for its value

---
 src/gearxml/GearParametersXML.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 23c6552..2a52437 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -238,8 +238,13 @@ namespace gear {
 	
 	hasValueAttribute = false ;
 
-	if( par->FirstChild() )
-	  value =  par->FirstChild()->Value() ;
+	// the first text, there can be comments before it
+	const TiXmlNode* text = par->FirstChild() ;
+	while( text != 0 && text->ToText() == 0 )
+	  text = text->NextSibling() ;
+
+	if( text != 0 )
+	  value =  text->Value() ;
       }
       
       
-- 
2.43.0


From 56b970dd6a4f2e681ad48a6c8389b5c9445a3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 092/100] fix: numbers of a parameter separated by line breaks
 or tabs were lost

---
 src/gearxml/GearParametersXML.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 2a52437..2a6047b 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -23,6 +23,16 @@ namespace gear {
     return (double) atof( str.c_str() )  ; 
   }
 
+  /** helper method - numbers can be separated by any white space, e.g. a line break */
+  std::vector< std::string > numberStrings( const std::string& str )  {
+    std::istringstream in( str ) ;
+    std::vector< std::string > v ;
+    std::string s ;
+    while( in >> s )
+      v.push_back( s ) ;
+    return v ;
+  }
+
   /** Helper class for XMLParser
    */
   class Tokenizer{
@@ -265,19 +275,21 @@ namespace gear {
       std::string name = getXMLAttribute( par, "name" ) ;
       std::string type = getXMLAttribute( par, "type" ) ;
 
+      const std::vector<std::string> numbers = numberStrings( value ) ;
+
       // texts and lists can be empty, numbers can not
-      if( stringValues.size() == 0 && ( type == "int" || type == "double" ) )
+      if( numbers.size() == 0 && ( type == "int" || type == "double" ) )
 
 	continue ;
 
 
       if( type == "int" ){
 
-	gearParams->setIntVal( name ,  intVal( stringValues[0] )   )   ;
+	gearParams->setIntVal( name ,  intVal( numbers[0] )   )   ;
 	
       } else if( type == "double" ){
 	
-	gearParams->setDoubleVal( name ,  doubleVal( stringValues[0] )   )   ;
+	gearParams->setDoubleVal( name ,  doubleVal( numbers[0] )   )   ;
 	
       } else if( type == "string" ){
 	
@@ -286,14 +298,14 @@ namespace gear {
       } else if( type == "IntVec" ){
 
 	IntVec v ;
-	transform(  stringValues.begin() ,  stringValues.end()  , back_inserter(v) , intVal ) ;
+	transform(  numbers.begin() ,  numbers.end()  , back_inserter(v) , intVal ) ;
 	gearParams->setIntVals( name , v ) ;
 	
 
       } else if( type == "DoubleVec" ){
 	
 	DoubleVec v ;
-	transform(  stringValues.begin() ,  stringValues.end()  , back_inserter(v) , doubleVal ) ;
+	transform(  numbers.begin() ,  numbers.end()  , back_inserter(v) , doubleVal ) ;
 	gearParams->setDoubleVals( name , v ) ;
 	
       } else if( type == "StringVec" ){
-- 
2.43.0


From dbe16d4b545b0239d3c14c6dce99401f5b3ae622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 093/100] fix: registering the present XML handler again left a
 deleted handler in use

---
 src/gearxml/XMLHandlerMgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 1f429b0..bd028fe 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -73,7 +73,8 @@ namespace gear{
     
     if( it != _map.end()  ) {
       
-      delete it->second ;
+      if( it->second != handler ) // it might be registered again
+	delete it->second ;
       
       it->second = handler ;
       
-- 
2.43.0


From ea1102a44cf0e6548abc5033bc6b730ee44827c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 094/100] fix: thickness of a ladder seen under an angle was
 that of a ladder facing the y axis

---
 src/gearimpl/ZPlanarLayerLayout.cc | 37 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 495e3e3..40caa2a 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -128,30 +128,29 @@ namespace gear{
       l = _sVec.at( layerIndex ) ;
     }
 
-    double angularThickness ;
+    // angle with respect to the normal of the first ladder
+    const double cosPhi = cos( phi - l.internalPhi0 ) ;
+    const double sinPhi = sin( phi - l.internalPhi0 ) ;
 
-    // first check if layer is completely out of ladder
-    if( phi < getStartInnerPhi( layerIndex , sensitive ) || phi > getEndInnerPhi( layerIndex, sensitive ) ) {
-      return -1 ;
-    }
-
-    // check if angle is withhin outer boundaries - easy calculation then
-    if( phi >= getStartOuterPhi( layerIndex , sensitive ) && phi <= getEndOuterPhi( layerIndex , sensitive ) ) {
-      return ( l.Thickness / cos( phi ) ) ;
-    }
+    if( cosPhi <= 0. ) return -1 ;
 
-    // the angel is in corner area:
+    // path between the side facing the IP and the side away from it
+    double begin = l.Distance / cosPhi ;
+    double end   = ( l.Distance + l.Thickness ) / cosPhi ;
 
-    // calculate distance from space point to intersection point with straight line from IP under phi
-    double distanceSpacePoint = l.Distance * tan( phi ) ;
-    
-    // calculate length of edge that is cut away on side facing IP
-    double cutAwayLength = l.Width/2 - l.Offset - distanceSpacePoint ;
+    // cut away what is beyond the two edges of the ladder
+    const double edge0 = -l.Width/2 - l.Offset ;
+    const double edge1 =  l.Width/2 - l.Offset ;
 
-    // now one can calculate the angular thickness
-    angularThickness = cutAwayLength / sin( phi ) ;
+    if( sinPhi != 0. ) {
+      begin = fmax( begin , fmin( edge0 / sinPhi , edge1 / sinPhi ) ) ;
+      end   = fmin( end   , fmax( edge0 / sinPhi , edge1 / sinPhi ) ) ;
+    }
+    else if( edge0 > 0. || edge1 < 0. ) {
+      return -1 ;
+    }
 
-    return angularThickness ;
+    return begin <= end ? end - begin : -1 ;
   }    
       
 
-- 
2.43.0


From b5c8c594cc805353f9136469595229534b0be22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:15 +0000
Subject: [PATCH 095/100] fix: last grid planes of a material map were left
 empty and single planes went wrong

---
 src/geartgeo/MaterialMap.cc | 80 ++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index 70755df..7fcb888 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -1,5 +1,6 @@
 #include <string>
 #include <vector>
+#include <algorithm>
 #include <math.h>
 
 #include "gear/GEAR.h"
@@ -57,25 +58,32 @@ namespace gear {
     _zmin   =zmin    ;
     _zmax   =zmax    ;
     _nzsteps=nzsteps ;  
+    //a range of a single value has a single grid point
+    if(xmax==xmin)
+      _nxsteps=0;
+    if(ymax==ymin)
+      _nysteps=0;
+    if(zmax==zmin)
+      _nzsteps=0;
     
     //setting the sizes of the matrix
-    _myMap.resize(nxsteps+1);
-    for(int s=0;s<=nxsteps;++s)
+    _myMap.resize(_nxsteps+1);
+    for(int s=0;s<=_nxsteps;++s)
       {
- 	_myMap[s].resize(nysteps+1);
- 	for(int s2=0;s2<=nysteps;++s2)
- 	  _myMap[s][s2].resize(nzsteps+1);
+ 	_myMap[s].resize(_nysteps+1);
+ 	for(int s2=0;s2<=_nysteps;++s2)
+ 	  _myMap[s][s2].resize(_nzsteps+1);
       }
    
-    if(nxsteps==0)
+    if(_nxsteps==0)
       _xstep=1;
     else
       _xstep=(xmax-xmin)/nxsteps;
-    if(nysteps==0)
+    if(_nysteps==0)
       _ystep=1;
     else
       _ystep=(ymax-ymin)/nysteps;
-    if(nzsteps==0)
+    if(_nzsteps==0)
       _zstep=1;
     else
       _zstep=(zmax-zmin)/nzsteps;
@@ -86,12 +94,16 @@ namespace gear {
     initial[1]=0;
     initial[2]=0;
     
-    for(double x= xmin;x<=xmax;x+=_xstep)//or r
+    //count the grid points, adding up the steps could miss the last one
+    for(int ix=0;ix<=_nxsteps;++ix)//or r
       {
-	for(double y= ymin;y<=ymax;y+=_ystep)// or phi or theta
+	const double x=xmin+ix*_xstep;
+	for(int iy=0;iy<=_nysteps;++iy)// or phi or theta
 	  {
-	    for(double z= zmin;z<=zmax;z+=_zstep) //or theta
+	    const double y=ymin+iy*_ystep;
+	    for(int iz=0;iz<=_nzsteps;++iz) //or theta
 	      {
+		const double z=zmin+iz*_zstep;
 		//GearDistanceProperties need coordinates in cartesian x,y,z
 		switch (coord)
 		  {
@@ -129,9 +141,7 @@ namespace gear {
 		    _values.first=gDP.getNRadlen( initial, final);
 		    _values.second=gDP.getNIntlen( initial, final);     
 		  }
-		std::vector<int> pos;
-		calculateGridIndex(pos,x,y,z);
-		_myMap[pos[0]][pos[1]][pos[2]]=_values;
+		_myMap[ix][iy][iz]=_values;
 	      }//z
 	  }//y
       }//x
@@ -162,37 +172,22 @@ namespace gear {
     //check if in map
     if(x+1e-5<_xmin || x-1e-5>_xmax || y+1e-5<_ymin || y-1e-5>_ymax || z+1e-5<_zmin || z-1e-5>_zmax)
       throw Exception("Coordinate not found in MaterialMap!");
-    // convert input to grid spacing
+    // convert input to grid spacing: index of the grid point below, within the grid
     gpos.resize(3);
-    gpos[0]=int((x-_xmin)/_xstep+0.5);
-    gpos[1]=int((y-_ymin)/_ystep+0.5);
-    gpos[2]=int((z-_zmin)/_zstep+0.5);
+    gpos[0]=std::min(std::max(int((x-_xmin)/_xstep),0),_nxsteps);
+    gpos[1]=std::min(std::max(int((y-_ymin)/_ystep),0),_nysteps);
+    gpos[2]=std::min(std::max(int((z-_zmin)/_zstep),0),_nzsteps);
   }
 
   void MaterialMap::interpolateOnGrid(std::pair<double,double> &result, double x, double y, double z) const
   {
     //find eight neighbouring grid points
-    double px[2],py[2],pz[2];
-    px[0]=x-fmod(x-_xmin,_xstep);
-    px[1]=px[0]+_xstep;
-    py[0]=y-fmod(y-_ymin,_ystep);
-    py[1]=py[0]+_ystep;
-    pz[0]=z-fmod(z-_zmin,_zstep);
-    pz[1]=pz[0]+_zstep;
+    std::vector<int> low;
+    calculateGridIndex(low,x,y,z);
     //check wether they are within grid
-    int xcount=0,ycount=0,zcount=0;
-    if(_xmin<=px[0] && px[0]<=_xmax) 
-      xcount++;      
-    if(_xmin<=px[1] && px[1]<=_xmax)
-      xcount++;
-    if(_ymin<=py[0] && py[0]<=_ymax)
-      ycount++;
-    if(_ymin<=py[1] && py[1]<=_ymax)
-      ycount++;
-    if(_zmin<=pz[0] && pz[0]<=_zmax)
-      zcount++;
-    if(_zmin<=pz[1] && pz[1]<=_zmax)
-      zcount++;
+    const int xcount= low[0]<_nxsteps ? 2 : 1;
+    const int ycount= low[1]<_nysteps ? 2 : 1;
+    const int zcount= low[2]<_nzsteps ? 2 : 1;
     //calculate distances from x,y,z to each neighbour
     int counter=0;
     double sumIntL=0,sumRadL=0,sumWeight=0;
@@ -203,10 +198,11 @@ namespace gear {
 	  {
 	    for(int iz=0;iz<zcount;iz++)
 	      {
-		double d=sqrt((x-px[ix])*(x-px[ix])+(y-py[iy])*(y-py[iy])+(z-pz[iz])*(z-pz[iz]));
-		std::vector<int>  gpos;
-		calculateGridIndex(gpos,px[ix],py[iy],pz[iz]);
-		std::pair<double,double> vals=_myMap[gpos[0]][gpos[1]][gpos[2]];
+		const double dx=x-(_xmin+(low[0]+ix)*_xstep);
+		const double dy=y-(_ymin+(low[1]+iy)*_ystep);
+		const double dz=z-(_zmin+(low[2]+iz)*_zstep);
+		double d=sqrt(dx*dx+dy*dy+dz*dz);
+		std::pair<double,double> vals=_myMap[low[0]+ix][low[1]+iy][low[2]+iz];
 		counter++;
 		if(fabs(d)<1e-5)//point in querry is a grid point
 		  {
-- 
2.43.0


From e6173f04ed93e7e1ce2c54e55641452cc8960f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:15 +0000
Subject: [PATCH 096/100] fix: material map factory gave the map of another
 coordinate system

---
 src/geartgeo/MaterialMapFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geartgeo/MaterialMapFactory.cc b/src/geartgeo/MaterialMapFactory.cc
index 243875c..8cb8282 100644
--- a/src/geartgeo/MaterialMapFactory.cc
+++ b/src/geartgeo/MaterialMapFactory.cc
@@ -16,9 +16,9 @@ namespace gear {
 					 double zmin, double zmax, int nzsteps, 
 					 int coord)
   {
-    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps)};
+    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps),double(coord)};
     std::vector<double> gridV;
-    gridV.assign(gridA,gridA+9);
+    gridV.assign(gridA,gridA+10);
 
     if(_managerMap.find(gridV)==_managerMap.end())
 	_managerMap[gridV]=new MaterialMap(_gearMgr,xmin,xmax,nxsteps,ymin,ymax,nysteps,zmin,zmax,nzsteps,coord);
-- 
2.43.0


From 17b34a815af9fec88915581995cddf7034a141b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:15 +0000
Subject: [PATCH 097/100] fix: material along a line was wrong after a line
 without extent or a refused one

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 25 ++++++++--------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index a27cf66..00f878e 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -22,8 +22,9 @@ namespace gear {
     if(p0==_p0 && p1==_p1)
       return;
     else{
+      //a line without extent, which is what the empty lists describe, until all of the line is done
       _p0=p0;
-      _p1=p1;
+      _p1=p0;
       _volNames.clear();
       _matNames.clear();
       _distance.clear();
@@ -31,6 +32,9 @@ namespace gear {
       _radLen.clear();
     }
     
+    //no material in between
+    if(p0==p1)
+      return;
 
     // printf( " ----- beamOn  called :  %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   %1.8e \n" , 
     // 	    p0[0], p0[1], p0[2], p1[0], p1[1], p1[2] ) ;
@@ -125,17 +129,14 @@ namespace gear {
       }
     _tgeomanager->ClearTracks();
     _tgeomanager->CleanGarbage();
+    _p1=p1;
   }
 
   /** List of matrial names along the distance between [p0,p1] .
    */
   const std::vector<std::string>&  TGeoGearDistanceProperties::getMaterialNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _matNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _matNames;
   }
@@ -144,11 +145,7 @@ namespace gear {
    */
   const std::vector<std::string>  TGeoGearDistanceProperties::getVolumeNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _volNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _volNames;
   }
@@ -158,11 +155,7 @@ namespace gear {
    */
   const std::vector<double>&  TGeoGearDistanceProperties::getMaterialThicknesses(const Vector3D & p0, const Vector3D & p1) const {
         
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _distance.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _distance;
   }
-- 
2.43.0


From 6bd2f8f5ecdda87e63166400772ef451cd06ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:15 +0000
Subject: [PATCH 098/100] fix: last piece of a line in the outermost volume was
 left out

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 00f878e..bd59a04 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -65,8 +65,8 @@ namespace gear {
 	TVirtualGeoTrack *track; 
 	node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 	
-	if(!node2 || _tgeomanager->IsOutside())
-	  break;
+	//the piece up to the border of the geometry belongs to the line as well
+	bool leaving = ( !node2 || _tgeomanager->IsOutside() );
 	
 	const double *position =(double*) _tgeomanager->GetCurrentPoint();
 	const double *previouspos =(double*) _tgeomanager->GetLastPoint();
@@ -76,7 +76,7 @@ namespace gear {
 	//work around until solution within root can be found when the step gets very small e.g. 1e-10
 	//and the next boundary is never reached
 	
-	if(length<MINSTEP)
+	if(length<MINSTEP && !leaving)
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
 	    length=_tgeomanager->GetStep();
@@ -85,6 +85,7 @@ namespace gear {
 	    //fg: need to update positions as well !?
 	    position = (const double*) _tgeomanager->GetCurrentPoint();
 	    previouspos = (const double*) _tgeomanager->GetLastPoint();
+	    leaving = ( !node2 || _tgeomanager->IsOutside() );
 
 	  }
 
@@ -125,6 +126,8 @@ namespace gear {
 	_intLen.push_back(node1->GetMedium()->GetMaterial()->GetIntLen());
 	_radLen.push_back(node1->GetMedium()->GetMaterial()->GetRadLen());
 	
+	if(leaving)
+	  break;
 	node1=node2;
       }
     _tgeomanager->ClearTracks();
-- 
2.43.0


From 213d422c24a190f5c98c060b6f010b97379851d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:15 +0000
Subject: [PATCH 099/100] fix: piece of a line behind a very short one was left
 out

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index bd59a04..08c15f2 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -79,8 +79,10 @@ namespace gear {
 	if(length<MINSTEP && !leaving)
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
-	    length=_tgeomanager->GetStep();
+	    //the piece that follows lies in the volume behind the boundary
+	    node1 = node2;
 	    node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
+	    length=_tgeomanager->GetStep()+MINSTEP;
 
 	    //fg: need to update positions as well !?
 	    position = (const double*) _tgeomanager->GetCurrentPoint();
-- 
2.43.0


From 9b8825b4a3c94dbeb2595f19af512e9b421fd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:15 +0000
Subject: [PATCH 100/100] fix: local position was that in the volume looked at
 before

---
 src/geartgeo/TGeoGearPointProperties.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geartgeo/TGeoGearPointProperties.cc b/src/geartgeo/TGeoGearPointProperties.cc
index 133ba11..80c7076 100644
--- a/src/geartgeo/TGeoGearPointProperties.cc
+++ b/src/geartgeo/TGeoGearPointProperties.cc
@@ -139,6 +139,10 @@ namespace gear {
     const Double_t global[3]={pos[0],pos[1],pos[2]};
     Double_t local[3];
 
+    //the local system is that of the volume at pos, not of the one looked at last
+    TGeoNode *node=_tgeomanager->FindNode(global[0],global[1],global[2]);
+    if(!node)
+      throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
     _tgeomanager->MasterToLocal(global, local);
     
     return Vector3D(local[0],local[1],local[2]) ;
-- 
2.43.0

