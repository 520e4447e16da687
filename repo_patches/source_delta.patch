From 3469c10cab6d3d157d5d820c619da75d7610144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:26 +0000
Subject: [PATCH 01/11] fix: b2_clamp_vec2 bounds from above by the upper limit

---
 src/b2_math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b2_math.rs b/src/b2_math.rs
index 92454c3..e4c396c 100644
--- a/src/b2_math.rs
+++ b/src/b2_math.rs
@@ -731,7 +731,7 @@ where
 }
 
 pub fn b2_clamp_vec2(a: B2vec2, low: B2vec2, high: B2vec2) -> B2vec2 {
-    return b2_max_vec2(low, b2_max_vec2(a, high));
+    return b2_max_vec2(low, b2_min_vec2(a, high));
 }
 
 pub fn b2_swap<T: Clone>(a: &mut T, b: &mut T) {
-- 
2.43.0


From 0a985cf29bb26aef457c512bc2d83367969f1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/11] fix: polygon ray cast reports hits near the ray origin

---
 src/private/collision/b2_polygon_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/collision/b2_polygon_shape.rs b/src/private/collision/b2_polygon_shape.rs
index 5b28678..979ca69 100644
--- a/src/private/collision/b2_polygon_shape.rs
+++ b/src/private/collision/b2_polygon_shape.rs
@@ -237,7 +237,7 @@ pub fn b2_shape_dyn_trait_ray_cast(
 	let p2: B2vec2 = b2_mul_t_rot_by_vec2(xf.q, input.p2 - xf.p);
 	let d: B2vec2 = p2 - p1;
 
-	let (mut lower, mut upper) = (0.032, input.max_fraction);
+	let (mut lower, mut upper) = (0.0, input.max_fraction);
 
 	let mut index: i32 = -1;
 
-- 
2.43.0


From 95d1a9d45aa836f37677484c73c2815659a23430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:47 +0000
Subject: [PATCH 03/11] fix: changing a fixture's filter no longer panics while
 it has contacts

---
 src/private/dynamics/b2_fixture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/dynamics/b2_fixture.rs b/src/private/dynamics/b2_fixture.rs
index 6c118cf..60778d4 100644
--- a/src/private/dynamics/b2_fixture.rs
+++ b/src/private/dynamics/b2_fixture.rs
@@ -193,7 +193,7 @@ pub fn b2_fixture_refilter<T:UserDataType>(self_: &mut B2fixture<T>) {
 		let mut contact = contact.borrow_mut();
 		let fixture_a = contact.get_base().get_fixture_a();
 		let fixture_b = contact.get_base().get_fixture_b();
-		if ptr::eq(&*fixture_a.borrow(),self_) || ptr::eq(&*fixture_b.borrow(),self_)
+		if ptr::eq(fixture_a.as_ptr(),self_) || ptr::eq(fixture_b.as_ptr(),self_)
 		{
 			contact.get_base_mut().flag_for_filtering();
 		}
-- 
2.43.0


From 5fbf80d367e692bb3762c6f8ae3df74c2793d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:47 +0000
Subject: [PATCH 04/11] fix: enabling an enabled body or disabling a disabled
 one does nothing

---
 src/private/dynamics/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 27ea53b..3bbf151 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -493,6 +493,10 @@ pub fn set_enabled<D: UserDataType>(self_: BodyPtr<D>, flag: bool) {
 			return;
 		}
 
+		if flag == self_.is_enabled() {
+			return;
+		}
+
 		self_.m_flags.set(BodyFlags::E_ENABLED_FLAG, flag);
 		m_fixture_list = self_.m_fixture_list.clone();
 		m_xf = self_.m_xf;
-- 
2.43.0


From 2214e501783fa89ba3d263fb11484df68b448c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:39:40 +0000
Subject: [PATCH 05/11] fix: an impact involving more than 64 bodies no longer
 panics

---
 src/private/dynamics/b2_world.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 87add4b..ce9094d 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -745,10 +745,10 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 			if body.borrow().m_type == B2bodyType::B2DynamicBody {
 				let contact_list = body.borrow().m_contact_list.clone();
 				for ce in contact_list.iter() {
-					// if island.m_body_count == island.m_body_capacity
-					// {
-					// 	break;
-					// }
+					if island.m_bodies.len() == 2 * B2_MAX_TOICONTACTS
+					{
+						break;
+					}
 
 					// if island.m_contact_count == island.m_contact_capacity
 					// {
-- 
2.43.0


From 35d1bc31bac81c71902252d770401f4da7620f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:43 +0000
Subject: [PATCH 06/11] fix: validating or rebuilding an empty tree no longer
 panics

---
 src/private/collision/b2_dynamic_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/collision/b2_dynamic_tree.rs b/src/private/collision/b2_dynamic_tree.rs
index 55619a4..805abcd 100644
--- a/src/private/collision/b2_dynamic_tree.rs
+++ b/src/private/collision/b2_dynamic_tree.rs
@@ -537,6 +537,10 @@ pub fn compute_height_by_node<T: Clone + Default>(
 }
 
 pub fn compute_height<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
+	if self_.m_root == B2_NULL_NODE {
+		return 0;
+	}
+
 	let height: i32 = compute_height_by_node(self_, self_.m_root);
 	return height;
 }
@@ -718,7 +722,7 @@ pub fn rebuild_bottom_up<T: Clone + Default>(self_: &mut B2dynamicTree<T>) {
 		count-=1;
 	}
 
-	self_.m_root = nodes[0];
+	self_.m_root = if count > 0 { nodes[0] } else { B2_NULL_NODE };
 
 	self_.validate();
 }
-- 
2.43.0


From 023df2c608650cebcd54f0ca25cdbe92ad11cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:13:40 +0000
Subject: [PATCH 07/11] fix: joints of a loaded world connect the bodies they
 connected when saved

Saved joints refer to bodies, and gear joints to joints, by their position in
the saved sequence. The loader looked these positions up in the world's lists,
which hold the newest object first, so the references came out reversed.
---
 src/serialize/serialize_b2_world.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 827e142..757187b 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -177,6 +177,14 @@ impl<D: UserDataType> Serialize for B2world<D> {
     }
 }
 
+/// Saved references are positions in the saved sequence. The world's lists hold the
+/// most recently created object first, so the loaded objects come in the opposite order.
+fn in_saved_order<T>(loaded: impl Iterator<Item = T>) -> Vec<T> {
+    let mut result: Vec<T> = loaded.collect();
+    result.reverse();
+    result
+}
+
 pub struct B2worldDeserializeResult<U: UserDataType> {
     pub world: B2worldPtr<U>,
 }
@@ -224,7 +232,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_body_array;
                 {
-                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>()));
+                    m_body_array = Rc::new(RefCell::new(in_saved_order(world.borrow().m_body_list.iter())));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -236,7 +244,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_all_joints;
                 {
-                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>()));
+                    m_all_joints = Rc::new(RefCell::new(in_saved_order(world.borrow().m_joint_list.iter())));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -268,7 +276,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_world: world.clone().unwrap(),
                             })?;
 
-                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>())));
+                            m_body_array = Some(Rc::new(RefCell::new(in_saved_order(world.as_ref().unwrap().borrow().m_body_list.iter()))));
                         }
                         Field::m_joints_list => {                          
  
@@ -278,7 +286,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_all_joints: Rc::default()
                             })?;
 
-                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>())));
+                            m_all_joints = Some(Rc::new(RefCell::new(in_saved_order(world.as_ref().unwrap().borrow().m_joint_list.iter()))));
                         }
                         Field::m_gear_joints_list => {                          
 
-- 
2.43.0


From c7872a1155c03bbf459e7b2470bafc5c53d025fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:13:51 +0000
Subject: [PATCH 08/11] fix: saving a world with a mouse joint keeps the joint
 list consistent

Mouse joints are not saved, but they were counted in the announced length of
the joint sequence and in the positions gear joints refer to. Binary formats
then read past the end of the list.
---
 src/serialize/serialize_b2_world.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 757187b..7723d33 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -149,13 +149,12 @@ impl<D: UserDataType> Serialize for B2world<D> {
         for ref b in self.m_joint_list.iter(){
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
-            if j.get_base().m_type!=B2jointType::EGearJoint
+            match j.get_base().m_type
             {
-                not_gear_joint.push(b.clone());
-            }
-            else
-            {
-                gear_joint.push(b.clone());
+                // mouse joints are not saved, so they take no place in the sequence
+                B2jointType::EMouseJoint => {}
+                B2jointType::EGearJoint => gear_joint.push(b.clone()),
+                _ => not_gear_joint.push(b.clone()),
             }
         }
 
-- 
2.43.0


From 61122afbaa10d36890e2b53021c1dba380863b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:14:00 +0000
Subject: [PATCH 09/11] fix: fixture user data survives saving and loading a
 world

The user data of bodies and joints was saved, that of fixtures was dropped.
---
 src/serialize/serialize_b2_fixture.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 2b43560..9fe8cad 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -47,6 +47,7 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 				state.serialize_field("m_shape", &shape)?;
 			}
 		}
+		state.serialize_field("m_user_data", &self.m_user_data)?;
 		state.end()
 	}
 }
@@ -75,6 +76,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 			m_filter,
 			m_shape_type,
 			m_shape,
+			m_user_data,
 		}
 		struct B2fixtureVisitor<D: UserDataType>(B2fixtureVisitorContext<D>);
 
@@ -147,6 +149,11 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 					}
 					_ => panic!(),
 				}
+
+				definition.user_data = seq
+					.next_element()?
+					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
+
 				B2body::create_fixture(body, &definition);
 				Ok(())
 			}
@@ -200,6 +207,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 							}
 							_ => panic!(),
 						},
+						Field::m_user_data => {
+							definition.user_data = map.next_value()?;
+						}
 					}
 				}
 				B2body::create_fixture(body, &definition);
-- 
2.43.0


From 9bbffed9ff95fd6e83bd0b569c422c48ae4fd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:14:00 +0000
Subject: [PATCH 10/11] fix: announce the number of fields actually written
 when saving

Formats that store the announced field count produced data that cannot be read
back.
---
 src/joints/serialize/serialize_b2_distance_joint.rs | 2 +-
 src/serialize/serialize_b2_fixture.rs               | 2 +-
 src/serialize/serialize_b2_world.rs                 | 2 +-
 src/shapes/serialize_b2_polygon_shape.rs            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/joints/serialize/serialize_b2_distance_joint.rs b/src/joints/serialize/serialize_b2_distance_joint.rs
index 90c90c3..b4034ca 100644
--- a/src/joints/serialize/serialize_b2_distance_joint.rs
+++ b/src/joints/serialize/serialize_b2_distance_joint.rs
@@ -40,7 +40,7 @@ impl<D: UserDataType> Serialize for B2distanceJointDef<D> {
     where
         S: Serializer,
     {
-        let mut state = serializer.serialize_struct("B2distanceJointDef", 6)?;
+        let mut state = serializer.serialize_struct("B2distanceJointDef", 8)?;
         state.serialize_field("base", &self.base)?;
         state.serialize_field("local_anchor_a", &self.local_anchor_a)?;
         state.serialize_field("local_anchor_b", &self.local_anchor_b)?;
diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 9fe8cad..c873011 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -25,7 +25,7 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 	where
 		S: Serializer,
 	{
-		let mut state = serializer.serialize_struct("B2fixture", 7)?;
+		let mut state = serializer.serialize_struct("B2fixture", 9)?;
 		state.serialize_field("m_friction", &self.m_friction)?;
 		state.serialize_field("m_restitution", &self.m_restitution)?;
 		state.serialize_field("m_restitution_threshold", &self.m_restitution_threshold)?;
diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 7723d33..c37c48b 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -134,7 +134,7 @@ impl<D: UserDataType> Serialize for B2world<D> {
     where
         S: Serializer,
     {
-        let mut state = serializer.serialize_struct("B2world", 3)?;
+        let mut state = serializer.serialize_struct("B2world", 4)?;
 
         state.serialize_field("m_gravity", &self.m_gravity)?;
         state.serialize_field("m_bodies_list", &self.m_body_list)?;
diff --git a/src/shapes/serialize_b2_polygon_shape.rs b/src/shapes/serialize_b2_polygon_shape.rs
index df3baec..5b4f8e5 100644
--- a/src/shapes/serialize_b2_polygon_shape.rs
+++ b/src/shapes/serialize_b2_polygon_shape.rs
@@ -43,7 +43,7 @@ impl Serialize for B2polygonShape
     where
         S: Serializer,
     {
-		let mut state = serializer.serialize_struct(B2polygonShape::STRUCT_NAME, 19)?;
+		let mut state = serializer.serialize_struct(B2polygonShape::STRUCT_NAME, 5)?;
 		state.serialize_field(Field::base.as_ref(), &self.base)?;
 		state.serialize_field(Field::m_centroid.as_ref(), &self.m_centroid)?;
 		state.serialize_field("m_count", &self.m_count)?;
-- 
2.43.0


From b693fa5a6225c9a6e51de9b5258328b267efc071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:11:34 +0000
Subject: [PATCH 11/11] fix: release joint and contact edges one by one when a
 body is dropped

Dropping the last reference to a body with very many joints released its
chain of joint edges recursively and overflowed the stack.
---
 src/b2_body.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/b2_body.rs b/src/b2_body.rs
index c6212b6..e9e377c 100644
--- a/src/b2_body.rs
+++ b/src/b2_body.rs
@@ -202,6 +202,8 @@ impl<D: UserDataType> Drop for B2body<D>
 {
     fn drop(&mut self) {
 		self.m_fixture_list.remove_all();
+		self.m_joint_list.remove_all();
+		self.m_contact_list.remove_all();
     }
 }
 
-- 
2.43.0

