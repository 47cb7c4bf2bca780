From 8241aecae86ffd5262fa981f4dbb1ff7b170e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 01/30] fix: length of a Spiral given by its angle uses the
 mean curvature

2*|angle|/max(|k0|,|k1|) only holds when one end is straight; the heading
change over a clothoid is length*(k0+k1)/2.
---
 pyodrx/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..59d13f5 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -451,7 +451,7 @@ class Spiral():
         if sum([x!=None for x in [length,angle,cdot]]) > 1:
             raise ToManyOptionalArguments('Spiral is overdefined, please use only one of the optional inputs')
         if angle:
-            self.length = 2*abs(angle)/np.maximum(abs(curvend),abs(curvstart))
+            self.length = 2*abs(angle)/abs(curvend + curvstart)
 
         elif cdot:
             self.length =  (self.curvend - self.curvstart) / cdot
-- 
2.43.0


From 1c21442d66f902586741b883f273fbd515053343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 02/30] fix: ParamPoly3.get_start_data rotates by the start
 heading

The (u,v) offset was rotated by the (turned) end heading, so a polynomial
placed from its end did not start where its curve begins.
---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 59d13f5..547d225 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -843,9 +843,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
+        # h is the end heading turned by pi, so new_h is the start heading turned by pi
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From e9e5630b1eaa30d7a3060a7138c69b1e69f367f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 03/30] fix: Arc.get_start_data turns the right way for arcs
 given by an angle

The first backward computation of an arc defined by its angle used the
forward angle and so ended on the wrong side; later ones used the length.
---
 pyodrx/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 547d225..7aeccf2 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -669,6 +669,10 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
+        if not self.length:
+            # only defined by its angle so far, which is the angle of the forward direction
+            self.length = np.abs(radius*self.angle)
+
         if self.length:
             self.angle = self.length * inv_curv
 
-- 
2.43.0


From c872c34d1ffed4618b8b1cfee5f49cc261c6674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 04/30] fix: PlanView placed from its end keeps the order, s
 and lengths of its geometries

---
 pyodrx/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 7aeccf2..30fa6f5 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -284,13 +284,15 @@ class PlanView():
             self.y_start = self.present_y
             self.h_start = self.present_h + np.pi
 
-            length = sum(lengths)           
+            # the geometries were placed from the last to the first
+            self._adjusted_geometries.reverse()
+            lengths.reverse()
             self.present_s = 0
              
-            for i in range(len(self._raw_geometries)):
+            for newgeom, length in zip(self._adjusted_geometries, lengths):
 
                 newgeom.set_s(self.present_s)
-                self.present_s += lengths[i]  
+                self.present_s += length
 
         self.adjusted = True
 
-- 
2.43.0


From 62c941a4b80b82d608b4fbb99de3253217ea1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 05/30] fix: Road.get_end_point returns the end also for roads
 placed from their end

---
 pyodrx/opendrive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..a0f5bba 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -301,7 +301,7 @@ class Road():
                 h (float): the end heading
 
         """
-        return self.planview.present_x, self.planview.present_y, self.planview.present_h
+        return self.planview.get_end_point()
     def get_attributes(self):
         """ returns the attributes as a dict of the Road
 
-- 
2.43.0


From 2c823a7866899ca7733d6e469cf93a222ea5d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 06/30] fix: a junction id that is no road id no longer breaks
 adjust_startpoints

---
 pyodrx/opendrive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index a0f5bba..c797128 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -501,8 +501,8 @@ class OpenDrive():
 
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                        self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -522,8 +522,8 @@ class OpenDrive():
 
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                        self.roads[k].successor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
-- 
2.43.0


From 7931d3bd2bdd46b5cf055ae5730d36e753666b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 07/30] fix: RoadMark of other types keeps the given space

---
 pyodrx/lane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..ac502e7 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -537,7 +537,7 @@ class RoadMark():
             #create empty line if arguments are missing
             else: 
                 self.length = length or 0
-                self.space = length or 0
+                self.space = space or 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
             self.width = width or 0.2
-- 
2.43.0


From fcab6eeabf3ff1d9098ff84716e2fbf37987733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 08/30] fix: Object.repeat without any height writes 0 instead
 of None

---
 pyodrx/signals_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..45d57d0 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -458,12 +458,12 @@ class Object(_SignalObjectBase):
             self._repeats[-1]['heightStart']=str(self.height)
             infoFallback(self.id, 'heightStart')
         else:
-            self._repeats[-1]['heightStart']=str(heightStart)
+            self._repeats[-1]['heightStart']=str(heightStart or 0)
         if heightEnd == None and self.height != None:
             self._repeats[-1]['heightEnd']=str(self.height)
             infoFallback(self.id, 'heightEnd')
         else:
-            self._repeats[-1]['heightEnd']=str(heightEnd)
+            self._repeats[-1]['heightEnd']=str(heightEnd or 0)
         if zOffsetStart == None:
             self._repeats[-1]['zOffsetStart']=str(self.zOffset)
             infoFallback(self.id, 'zOffsetStart')
-- 
2.43.0


From fd25d6b4eeed22ad2c9449ccee2ce07364e15572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 09/30] fix: a signal value without unit no longer writes the
 unit None

---
 pyodrx/signals_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index 45d57d0..fbd11b5 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -256,7 +256,8 @@ class Signal(_SignalObjectBase):
         #TODO check if value is supplied --> unit is mandatory in that case   
         if self.value is not None:
             retdict["value"] = str(self.value)
-            retdict["unit"] = str(self.unit)
+            if self.unit is not None:
+                retdict["unit"] = str(self.unit)
         return retdict
 
     def get_element(self):
-- 
2.43.0


From 8000d055db021a3f5a1173958cb43f1d66721271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 10/30] fix: automatic connection ids skip explicitly chosen
 ones

---
 pyodrx/links.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..6ddcab0 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,9 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        used_ids = [str(con.id) for con in self.connections]
+        while str(self._id_counter) in used_ids:
+            self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From 664d5d86e038cb53903d6047771d7aa221547df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 11/30] fix: get_lanes_offset looks at the lane section at the
 contact point

---
 pyodrx/generators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..32d6722 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection, _get_related_lanesection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
@@ -208,9 +209,9 @@ def get_lanes_offset(road1, road2, contactpoint):
     #now we always look at lanesection[0] to take the number of lanes 
     #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
+        n_lanesection = -1 
     else:
-        n_lanesection = -1
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From d8ffab8e42677fd680d2160f2825dfdddeb6c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 12/30] fix: lane links compare the lane sections that meet

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 6ddcab0..4e989f3 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -581,7 +581,7 @@ def _create_links_roads(pre_road,suc_road):
     """
     pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
     suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
@@ -593,7 +593,7 @@ def _create_links_roads(pre_road,suc_road):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
 
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
             pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-- 
2.43.0


From efaaf95db8c0141ed034b6448169eb5a6343648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 13/30] fix: lane links of two roads that follow each other
 both ways

---
 pyodrx/links.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 4e989f3..267dd2f 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -461,7 +461,7 @@ def create_lane_links(road1,road2):
         #both are roads
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -579,8 +579,9 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
+    # the roads can follow each other both ways, here it is the end of pre_road that meets the start of suc_road
+    pre_linktype, pre_sign, pre_connecting_lanesec = 'successor', 1, -1
+    suc_linktype, suc_connecting_lanesec = 'predecessor', 0
     if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
-- 
2.43.0


From 55fbf9a1cc3d87454560f58e6bf939c0155bb99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 14/30] fix: connecting road lanes are linked by their own lane
 ids

---
 pyodrx/links.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 267dd2f..f5f48ff 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -489,28 +489,15 @@ def _create_links_connecting_road(connecting,road):
 
     """
     linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
 
     if connecting_lanesec != None:
-        if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
-            # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
-                if linktype == 'predecessor':
-                    linkid += connecting.lane_offset_pred
-                else:
-                    linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid)
-            
-        if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
-            # do right lanes
-            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
-                if linktype == 'predecessor':
-                    linkid += connecting.lane_offset_pred
-                else:
-                    linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
+        if linktype == 'predecessor':
+            lane_offset = connecting.lane_offset_pred
+        else:
+            lane_offset = connecting.lane_offset_suc
+        lanesection = connecting.lanes.lanesections[connecting_lanesec]
+        for lane in lanesection.leftlanes + lanesection.rightlanes:
+            lane.add_link(linktype,lane.lane_id*sign + lane_offset)
 
 
 def _get_related_lanesection(road,connected_road):
-- 
2.43.0


From a57fcb1cd2df5ff694231890b7a41e0deedf7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 15/30] fix: _get_related_lanesection uses the contact points
 of a connecting road, which may lack a link

---
 pyodrx/links.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index f5f48ff..47db19b 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -540,15 +540,15 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
+        if connected_road.predecessor and connected_road.predecessor.element_id == road.id:
+            if connected_road.predecessor.contact_point == ContactPoint.start:
+                road_lanesection_id = 0
                 sign = -1
             else:
-                road_lanesection_id = 0
+                road_lanesection_id = -1
                 sign = 1
-        elif connected_road.successor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
+        elif connected_road.successor and connected_road.successor.element_id == road.id:
+            if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
             else:
-- 
2.43.0


From f0135ee6f17e8d779ff5a1052420b7c832118b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 16/30] fix: create_junction links the lanes that adjusting
 links, also with offsets and reversed contacts

---
 pyodrx/generators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 32d6722..a81503a 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -361,15 +361,16 @@ def create_junction(junction_roads, id, roads):
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
         _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        # the links go from the lanes of the incoming road to those of the connecting road
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-sign,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),sign,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
         _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
-        _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
-        _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
+        _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-sign,sign,from_offset=jr.lane_offset_pred)
+        _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),sign,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
     return junc
 
-- 
2.43.0


From 4a0387098e3e8f2cab2343a3ac8079b296e7cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 17/30] fix: adjusting a network again keeps the adjusted roads
 and lane links

---
 pyodrx/lane.py      | 3 +++
 pyodrx/opendrive.py | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index ac502e7..62258a2 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -272,6 +272,9 @@ class Lane():
 
             id (str/id): id of the linked lane
         """
+        for link in self.links.links:
+            if link.link_type == link_type and link.element_id == str(id):
+                return
         self.links.add_link(_Link(link_type,str(id)))
 
     def _set_lane_id(self,lane_id):
diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index c797128..b22d6ee 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -477,7 +477,11 @@ class OpenDrive():
         count_total_adjusted_roads = 0
         fixed_road = False
         for k in self.roads:
-            if self.roads[k].planview.fixed:
+            if self.roads[k].planview.adjusted:
+                # placed by an earlier adjustment, stays where it is
+                count_total_adjusted_roads += 1
+                fixed_road = True
+            elif self.roads[k].planview.fixed:
                 self.roads[k].planview.adjust_geometries()
                 # print('Fixing Road: ' + k)
                 count_total_adjusted_roads += 1
-- 
2.43.0


From 6320299ebb51681e69fb957b405a063a5355d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 18/30] fix: a road placed from a connecting road respects its
 lane offset

---
 pyodrx/opendrive.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index b22d6ee..2f815de 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -429,6 +429,17 @@ class OpenDrive():
         """
 
         main_road = self.roads[str(road_id)]
+        neighbour = self.roads[str(neighbour_id)]
+
+        # when a road is placed from a connecting road, it is the connecting road that knows the lane offset
+        connecting_offset = 0
+        if main_road.road_type == -1 and neighbour.road_type != -1:
+            if contact_point == ContactPoint.start:
+                connecting_offset = neighbour.lane_offset_pred
+            else:
+                connecting_offset = neighbour.lane_offset_suc
+            if (neighbour_type == 'predecessor') == (contact_point == ContactPoint.end):
+                connecting_offset = -connecting_offset
 
         if neighbour_type == 'predecessor':
 
@@ -437,7 +448,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_pred
+            num_lane_offsets = main_road.lane_offset_pred + connecting_offset
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
 
@@ -451,7 +462,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_suc
+            num_lane_offsets = main_road.lane_offset_suc + connecting_offset
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
             main_road.planview.set_start_point(x,y,h)
-- 
2.43.0


From 147459ecc8d1ccbde52b4ec4090416ad34fc5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 19/30] fix: the roads around a connecting road with a given
 position are placed

---
 pyodrx/opendrive.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 2f815de..b4cf9c7 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -555,6 +555,18 @@ class OpenDrive():
                             else:
                                 self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
                             count_adjusted_roads +=1
+
+                elif self.roads[k].road_type != -1:
+                    # a connecting road with a given position, the roads it connects do not know it and are placed from it
+                    for link, own_end in ((self.roads[k].predecessor, ContactPoint.start), (self.roads[k].successor, ContactPoint.end)):
+                        if link is not None and link.element_type is not ElementType.junction and \
+                            self.roads[str(link.element_id)].planview.adjusted is False:
+
+                            if link.contact_point == ContactPoint.start:
+                                self.adjust_road_wrt_neighbour(link.element_id, k, own_end, 'predecessor')
+                            else:
+                                self.adjust_road_wrt_neighbour(link.element_id, k, own_end, 'successor')
+                            count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
 
-- 
2.43.0


From 8764e37b0e18df53923b1871cac89170720008ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 20/30] fix: create_road accepts geometries whose length is not
 known yet

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index a81503a..9e2ac58 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -66,14 +66,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From a5475f985662d3c3d0fe51f3b7e86eea3bb34801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 21/30] fix: pretty-printed files keep line breaks and tabs in
 texts and are always utf-8

---
 pyodrx/helpers.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..9083586 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -2,6 +2,7 @@ import xml.etree.ElementTree as ET
 import xml.dom.minidom as mini
 
 
+import copy
 import os
 
 
@@ -65,12 +66,31 @@ def printToFile(element,filename,prettyprint=True):
 
     """
     if prettyprint:    
-        rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
-        reparsed = mini.parseString(rough)
-        towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
-            file_handle.write(towrite)
-    else:
-        tree = ET.ElementTree(element)
-        with open(filename,"wb") as file_handle:
-            tree.write(file_handle)
\ No newline at end of file
+        element = copy.deepcopy(element)
+        _indent(element)
+    tree = ET.ElementTree(element)
+    with open(filename,"wb") as file_handle:
+        if prettyprint:
+            tree.write(file_handle,encoding='utf-8',xml_declaration=True)
+        else:
+            tree.write(file_handle)
+
+
+def _indent(element,level=0):
+    """ puts every child of the element on a line of its own
+
+        Parameters
+        ----------
+            element (Element): element to indent
+
+            level (int): depth of the element
+                Default: 0
+
+    """
+    children = list(element)
+    if children and not (element.text and element.text.strip()):
+        element.text = '\n' + '\t'*(level+1)
+    for child in children:
+        _indent(child,level+1)
+        if not (child.tail and child.tail.strip()):
+            child.tail = '\n' + '\t'*(level if child is children[-1] else level+1)
-- 
2.43.0


From f030f745ec3e5e69b2048fb8fd298d0a3a284abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 22/30] fix: quote the esmini paths in the command of run_road

---
 pyodrx/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 9083586..247d95f 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -4,6 +4,7 @@ import xml.dom.minidom as mini
 
 import copy
 import os
+import shlex
 
 
 def run_road(opendrive,esminipath = 'esmini',density=15):
@@ -21,7 +22,7 @@ def run_road(opendrive,esminipath = 'esmini',density=15):
     opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
     
     if os.name == 'posix':
-        os.system(os.path.join('.', esminipath, 'bin','odrviewer') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
+        os.system(shlex.quote(os.path.join('.', esminipath, 'bin','odrviewer')) + ' --odr ' + shlex.quote(os.path.join(esminipath,'resources','xodr','pythonroad.xodr')) + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
     elif os.name == 'nt':
         os.system(os.path.join(esminipath,'bin','odrviewer.exe') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density '  + str(density) )
 
-- 
2.43.0


From f845653720d9d5e7ac958331524e7fbb4c4efc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 23/30] fix: lane links at reversed contacts respect the
 direction of the lane offset

---
 pyodrx/generators.py | 8 ++++----
 pyodrx/links.py      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 9e2ac58..916bc72 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -359,15 +359,15 @@ def create_junction(junction_roads, id, roads):
         _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
 
         # the links go from the lanes of the incoming road to those of the connecting road
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-sign,sign,from_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),sign,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-sign,sign,from_offset=sign*jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),sign,sign,from_offset=sign*jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
         _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
-        _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-sign,sign,from_offset=jr.lane_offset_pred)
-        _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),sign,sign,from_offset=jr.lane_offset_pred)
+        _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-sign,sign,from_offset=sign*jr.lane_offset_pred)
+        _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),sign,sign,from_offset=sign*jr.lane_offset_pred)
         junc.add_connection(conne2)
     return junc
 
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 47db19b..63f9807 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -497,7 +497,7 @@ def _create_links_connecting_road(connecting,road):
             lane_offset = connecting.lane_offset_suc
         lanesection = connecting.lanes.lanesections[connecting_lanesec]
         for lane in lanesection.leftlanes + lanesection.rightlanes:
-            lane.add_link(linktype,lane.lane_id*sign + lane_offset)
+            lane.add_link(linktype,(lane.lane_id + lane_offset)*sign)
 
 
 def _get_related_lanesection(road,connected_road):
-- 
2.43.0


From befbe8c8986fc2cb4c14bba8804a9e65b739a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 24/30] fix: ids given as numbers and as text name the same
 road in links and junctions

---
 pyodrx/generators.py |  2 +-
 pyodrx/links.py      | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 916bc72..bdc7885 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -385,5 +385,5 @@ def get_road_by_id(roads,id):
             Road
     """
     for r in roads:
-        if r.id == id:
+        if str(r.id) == str(id):
             return r
\ No newline at end of file
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 63f9807..e42df68 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -441,7 +441,7 @@ def are_roads_consecutive(road1, road2):
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
@@ -522,7 +522,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and road.successor.element_id == connected_road.id:
+    if road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -530,7 +530,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
+    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
@@ -540,14 +540,14 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor and connected_road.predecessor.element_id == road.id:
+        if connected_road.predecessor and str(connected_road.predecessor.element_id) == str(road.id):
             if connected_road.predecessor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = -1
             else:
                 road_lanesection_id = -1
                 sign = 1
-        elif connected_road.successor and connected_road.successor.element_id == road.id:
+        elif connected_road.successor and str(connected_road.successor.element_id) == str(road.id):
             if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
-- 
2.43.0


From 97e00184d291ef009ef6256bc6e6d437400367b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 25/30] fix: create_junction_roads changes no road when the
 roads cannot be connected

---
 pyodrx/generators.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index bdc7885..5a78568 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -264,6 +264,17 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
     Y0 = Y-r*(1-np.cos(angle_cloth))
     linelength = 2*(X0 + r + Y0)
 
+    # make sure that all roads can be connected before any of them is changed
+    for i in range(len(roads)-1):
+        if i == 0 and roads[i].successor:
+            raise ValueError('only one successor is allowed')
+        if i != 0 and roads[i].predecessor:
+            raise ValueError('only one predecessor is allowed')
+        for j in range(1+i,len(roads)):
+            get_lanes_offset(roads[i], roads[j], ContactPoint.end if i == 0 else ContactPoint.start)
+    if roads[-1].predecessor:
+        raise ValueError('only one predecessor is allowed')
+
     junction_roads = []
 
     # loop over the roads to get all possible combinations of connecting roads
-- 
2.43.0


From d2df835cfd17fc0155d31b973fa56c3c06077a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:07 +0000
Subject: [PATCH 26/30] fix: connecting roads linked to each other both get
 their lane links

---
 pyodrx/links.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index e42df68..b916d42 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -472,11 +472,12 @@ def create_lane_links(road1,road2):
     #                 _create_links_roads(road1,road2)
     #             elif road1.predecessor and road1.predecessor.element_id == road2.id:
     #                 _create_links_roads(road2,road1)
-    elif road1.road_type != -1:
-        _create_links_connecting_road(road1,road2)
-    elif road2.road_type != -1:
-
-        _create_links_connecting_road(road2,road1)
+    else:
+        # both can be connecting roads, then each of them is linked to the other
+        if road1.road_type != -1:
+            _create_links_connecting_road(road1,road2)
+        if road2.road_type != -1:
+            _create_links_connecting_road(road2,road1)
     
 def _create_links_connecting_road(connecting,road):
     """ _create_links_connecting_road will create lane links between a connecting road and a normal road
@@ -490,7 +491,7 @@ def _create_links_connecting_road(connecting,road):
     """
     linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
 
-    if connecting_lanesec != None:
+    if linktype != None:
         if linktype == 'predecessor':
             lane_offset = connecting.lane_offset_pred
         else:
-- 
2.43.0


From 59b733724fddaf6b544f936985951eea66d2e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 27/30] fix: connecting roads leading back to the road they
 come from get both lane links

---
 pyodrx/generators.py |  4 ++--
 pyodrx/links.py      | 28 ++++++++++++++++------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 5a78568..68234be 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -367,7 +367,7 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id),'successor') 
 
         # the links go from the lanes of the incoming road to those of the connecting road
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-sign,sign,from_offset=sign*jr.lane_offset_suc)
@@ -376,7 +376,7 @@ def create_junction(junction_roads, id, roads):
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id),'predecessor') 
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-sign,sign,from_offset=sign*jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),sign,sign,from_offset=sign*jr.lane_offset_pred)
         junc.add_connection(conne2)
diff --git a/pyodrx/links.py b/pyodrx/links.py
index b916d42..48568b2 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -489,19 +489,21 @@ def _create_links_connecting_road(connecting,road):
             road (Road): a that connects to the connecting road
 
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
+    # both ends of the connecting road can be connected to the same road
+    for end in ('predecessor','successor'):
+        linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road,end)
 
-    if linktype != None:
-        if linktype == 'predecessor':
-            lane_offset = connecting.lane_offset_pred
-        else:
-            lane_offset = connecting.lane_offset_suc
-        lanesection = connecting.lanes.lanesections[connecting_lanesec]
-        for lane in lanesection.leftlanes + lanesection.rightlanes:
-            lane.add_link(linktype,(lane.lane_id + lane_offset)*sign)
+        if linktype != None:
+            if linktype == 'predecessor':
+                lane_offset = connecting.lane_offset_pred
+            else:
+                lane_offset = connecting.lane_offset_suc
+            lanesection = connecting.lanes.lanesections[connecting_lanesec]
+            for lane in lanesection.leftlanes + lanesection.rightlanes:
+                lane.add_link(linktype,(lane.lane_id + lane_offset)*sign)
 
 
-def _get_related_lanesection(road,connected_road):
+def _get_related_lanesection(road,connected_road,end=None):
     """ _get_related_lanesection takes to roads, and gives the correct lane section to use
         the type of link and if the sign of lanes should be switched
 
@@ -511,6 +513,8 @@ def _get_related_lanesection(road,connected_road):
 
             connected_road (Road): the connected road
 
+            end (str): the end of road to look at, successor or predecessor (optional)
+
         Returns
         -------
             linktype (str): the linktype of road to connected road (successor or predecessor)
@@ -523,7 +527,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and str(road.successor.element_id) == str(connected_road.id):
+    if end != 'predecessor' and road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -531,7 +535,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
+    elif end != 'successor' and road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
-- 
2.43.0


From 094261a643ab9b9a04f72ecb93e055732b37ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 28/30] fix: a plan view adjusted again starts over instead of
 appending its geometries a second time

---
 pyodrx/geometry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 30fa6f5..1b9ffa2 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -155,6 +155,7 @@ class PlanView():
         self.present_y = 0
         self.present_h = 0
         self.present_s = 0
+        self._placed_at = (0, 0, 0)
         self.fixed = False
         if all([x_start != None, y_start!=None,h_start!=None]):
             self.set_start_point(x_start, y_start, h_start)
@@ -210,6 +211,7 @@ class PlanView():
         self.present_x = x_start
         self.present_y = y_start
         self.present_h = h_start
+        self._placed_at = (x_start, y_start, h_start)
 
     def get_start_point(self):
         """ returns the start point of the planview
@@ -247,6 +249,12 @@ class PlanView():
 
         """
         
+        if self.adjusted:
+            # start over from the given point
+            self.present_x, self.present_y, self.present_h = self._placed_at
+            self.present_s = 0
+            self._adjusted_geometries = []
+
         if from_end== False:
             self.x_start = self.present_x
             self.y_start = self.present_y
-- 
2.43.0


From 7f4ea94def997c0cf455ee4805adbc9048330f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:04 +0000
Subject: [PATCH 29/30] fix: a connecting road leading into a junction no
 longer follows the road with the junction's id

---
 pyodrx/links.py     | 8 ++++----
 pyodrx/opendrive.py | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 48568b2..6754ffd 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -527,7 +527,7 @@ def _get_related_lanesection(road,connected_road,end=None):
     sign = None
     road_lanesection_id = None
  
-    if end != 'predecessor' and road.successor and str(road.successor.element_id) == str(connected_road.id):
+    if end != 'predecessor' and road.successor and road.successor.element_type is not ElementType.junction and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -535,7 +535,7 @@ def _get_related_lanesection(road,connected_road,end=None):
             sign = -1
         road_lanesection_id = -1
 
-    elif end != 'successor' and road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
+    elif end != 'successor' and road.predecessor and road.predecessor.element_type is not ElementType.junction and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
@@ -545,14 +545,14 @@ def _get_related_lanesection(road,connected_road,end=None):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor and str(connected_road.predecessor.element_id) == str(road.id):
+        if connected_road.predecessor and connected_road.predecessor.element_type is not ElementType.junction and str(connected_road.predecessor.element_id) == str(road.id):
             if connected_road.predecessor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = -1
             else:
                 road_lanesection_id = -1
                 sign = 1
-        elif connected_road.successor and str(connected_road.successor.element_id) == str(road.id):
+        elif connected_road.successor and connected_road.successor.element_type is not ElementType.junction and str(connected_road.successor.element_id) == str(road.id):
             if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index b4cf9c7..dd8d1af 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -525,7 +525,8 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and \
+                            self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -546,7 +547,8 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and \
+                            self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
-- 
2.43.0


From 891d5ef7720bb4314e979dcee319a6b7eb0b46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:18 +0000
Subject: [PATCH 30/30] fix: get_start_point is the given heading of the first
 geometry

---
 pyodrx/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 1b9ffa2..7d5ad5d 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -263,6 +263,8 @@ class PlanView():
             for i in range(len(self._raw_geometries)):
                 if len(self._overridden_headings) > 0:
                     self.present_h = self._overridden_headings[i]
+                    if i == 0:
+                        self.h_start = self.present_h
 
                 newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])
 
-- 
2.43.0

