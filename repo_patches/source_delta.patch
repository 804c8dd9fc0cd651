From 1eeaeb98e8e1b1d7eaaa57204ca390f246edb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 01/37] fix: do not emit an empty unknown command when a stream
 starts with text

A stream whose first byte was text (or an unknown command) produced an
additional unknown command without data, which was reported as an error.
---
 thermal_parser/src/parser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..36a0446 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -166,9 +166,6 @@ impl Parser {
                 if new_cmd.is_some() {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
                 }
                 return;
             }
-- 
2.43.0


From 763311abf88c7117c15eb16c894bdd4f73974f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 02/37] fix: keep the CAN byte of an unrecognized CAN sequence

CAN followed by anything but '@' dropped the CAN byte. It is now an unknown
command like every other unrecognized control sequence.
---
 thermal_parser/src/commands/unknown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/unknown.rs b/thermal_parser/src/commands/unknown.rs
index 075b3e2..3dcf830 100644
--- a/thermal_parser/src/commands/unknown.rs
+++ b/thermal_parser/src/commands/unknown.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Unknown Command",
-        vec![DLE, ESC, FS, GS],
+        vec![DLE, ESC, FS, GS, CAN],
         CommandType::Unknown,
         DataType::Unknown,
         Box::new(Handler {}),
-- 
2.43.0


From b7be6857bcd8a98adb89339119521bf04f798f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 03/37] fix: do not lose subcommands that are last in the
 stream or unknown

The header of a GS ( / GS 8 command was only interpreted when another byte
followed its data, so the last one in a stream was dropped (and the header of
GS ( H was lost). A function code without a handler was dropped silently, it is
now an unknown command. A declared size below 2 no longer underflows.
---
 thermal_parser/src/parser.rs          | 11 +++++++
 thermal_parser/src/subcommands/mod.rs | 46 ++++++++++++---------------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 36a0446..aa63ad3 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -70,7 +70,18 @@ impl Parser {
 
                 subcommand.commands = Rc::new(expanded_cmds);
 
+                //The data was collected by the parent command
+                mem::swap(&mut subcommand.data, &mut command.data);
+
                 self.captured_commands.push(subcommand);
+            } else {
+                //No such subcommand, keep all of its bytes
+                let (mut bytes, data) = command.handler.get_command_bytes(command);
+                bytes.extend(data);
+
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data = bytes;
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..da46d43 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -18,6 +18,7 @@ pub struct SubCommandHandler {
     capacity: u32,
     accept_data: bool,
     use_m: bool,
+    header: Vec<u8>,
 }
 
 impl SubCommandHandler {
@@ -54,7 +55,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +63,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
@@ -79,6 +80,7 @@ impl SubCommandHandler {
             sub.commands = Rc::new(data.to_vec());
         }
 
+        self.header = data.to_vec();
         self.accept_data = true;
     }
 }
@@ -113,44 +115,35 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
         if !self.accept_data {
             // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
+            let header_len = if self.is_large { 6 } else { 4 };
+
+            data.push(byte);
+            if data.len() == header_len {
+                self.parse_meta(&data[0..header_len]);
+                data.clear();
             }
-            data.clear();
-            data_len = 0;
+            return true;
         }
 
         //Accept data
-        if data_len < (self.capacity as usize) {
+        if data.len() < (self.capacity as usize) {
             data.push(byte);
             return true;
         }
 
-        //Move the data into the subcommand
-        if let Some(sub) = &mut self.subcommand {
-            mem::swap(&mut sub.data, data);
-        } else {
-            println!("Missing subcommand");
-        }
-
         //Stop accepting bytes
         false
     }
 
+    //The header was moved out of the data when it was complete
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        let mut commands = command.commands.to_vec();
+        commands.extend(self.header.iter());
+        (commands, command.data.clone())
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
@@ -169,6 +162,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         capacity: 0,
         accept_data: false,
         use_m,
+        header: vec![],
     })
 }
 
-- 
2.43.0


From d631a09afc16d752580c7a6b2d23795fdc8b20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 04/37] fix: end a NUL terminated barcode at its NUL

The NUL was only recognized when another byte followed. A barcode at the end of
the stream kept the NUL in its data and was rejected.
---
 thermal_parser/src/commands/barcode.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..1d6e767 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -51,6 +51,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -279,7 +280,7 @@ impl CommandHandler for BarcodeHandler {
         params.extend(self.raw_params.clone());
         let mut data = command.data.to_vec();
 
-        if self.encoding == EncodingFunction::NulTerminated {
+        if self.terminated {
             data.push(NUL);
         }
 
@@ -331,11 +332,14 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
-                data.push(byte);
+                if byte == NUL {
+                    self.terminated = true;
+                } else {
+                    data.push(byte);
+                }
                 true
             }
             EncodingFunction::ExplicitSize => {
@@ -368,6 +372,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From 7058b48372e9a0af88cfdfa790639bf52b92169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 05/37] fix: a command cut off by the end of the stream must
 not take effect

---
 thermal_parser/src/command.rs                 | 20 +++++++++++
 thermal_parser/src/commands/barcode.rs        | 10 ++++++
 thermal_parser/src/commands/bit_image.rs      |  4 +++
 thermal_parser/src/commands/feed_and_cut.rs   |  7 ++++
 .../src/commands/raster_bit_image.rs          |  4 +++
 .../src/commands/set_character_effects.rs     |  4 +++
 thermal_parser/src/parser.rs                  | 33 ++++++++++++++++---
 thermal_parser/src/subcommands/mod.rs         |  4 +++
 8 files changed, 81 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/command.rs b/thermal_parser/src/command.rs
index a076d6f..912c42b 100644
--- a/thermal_parser/src/command.rs
+++ b/thermal_parser/src/command.rs
@@ -151,6 +151,21 @@ impl Command {
         self.data.push(byte); //Always push byte if not returned early
         true
     }
+
+    // returns true if all of the data that the command needs was received
+    pub fn is_complete(&self) -> bool {
+        let data_len = self.data.len();
+
+        match self.data_kind {
+            DataType::Custom | DataType::Subcommand => self.handler.is_complete(&self.data),
+            DataType::Single => data_len >= 1,
+            DataType::Double => data_len >= 2,
+            DataType::Triple => data_len >= 3,
+            DataType::Quad => data_len >= 4,
+            DataType::Octet => data_len >= 8,
+            DataType::Empty | DataType::Text | DataType::Unknown => true,
+        }
+    }
 }
 
 //These next 3 traits/impl make the Box<dyn CommandHandler> cloneable
@@ -209,6 +224,11 @@ pub trait CommandHandler: CloneCommandHandler {
         return false;
     }
 
+    //Custom commands decide when all of their data was received
+    fn is_complete(&self, _data: &Vec<u8>) -> bool {
+        true
+    }
+
     //Returns the subcommand for a command, see subcommand module
     fn get_subcommand(&mut self) -> Option<Command> {
         None
diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 1d6e767..2af3366 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -275,6 +275,16 @@ impl CommandHandler for BarcodeHandler {
         )
     }
 
+    fn is_complete(&self, data: &Vec<u8>) -> bool {
+        match self.encoding {
+            EncodingFunction::NulTerminated => self.terminated,
+            EncodingFunction::ExplicitSize => {
+                self.has_capacity && data.len() >= self.capacity as usize
+            }
+            EncodingFunction::Unknown => self.accept_data,
+        }
+    }
+
     fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
         let mut params = command.commands.to_vec();
         params.extend(self.raw_params.clone());
diff --git a/thermal_parser/src/commands/bit_image.rs b/thermal_parser/src/commands/bit_image.rs
index 1668742..eb31dad 100644
--- a/thermal_parser/src/commands/bit_image.rs
+++ b/thermal_parser/src/commands/bit_image.rs
@@ -88,6 +88,10 @@ impl CommandHandler for Handler {
         true
     }
 
+    fn is_complete(&self, _data: &Vec<u8>) -> bool {
+        self.accept_data && self.size >= self.capacity
+    }
+
     //Used when converting commands back into other formats i.e. Thermal format
     fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
         let mut data = self.params.clone();
diff --git a/thermal_parser/src/commands/feed_and_cut.rs b/thermal_parser/src/commands/feed_and_cut.rs
index 3f18eab..a63f403 100644
--- a/thermal_parser/src/commands/feed_and_cut.rs
+++ b/thermal_parser/src/commands/feed_and_cut.rs
@@ -24,6 +24,13 @@ impl CommandHandler for Handler {
         };
     }
 
+    fn is_complete(&self, data: &Vec<u8>) -> bool {
+        match data.get(0) {
+            Some(0u8 | 48u8 | 1u8 | 49u8) => true,
+            _ => data.len() >= 2,
+        }
+    }
+
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
         if data.len() == 0 {
             data.push(byte);
diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..bad4cdc 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -64,6 +64,10 @@ impl CommandHandler for Handler {
         true
     }
 
+    fn is_complete(&self, data: &Vec<u8>) -> bool {
+        self.accept_data && data.len() >= self.capacity as usize
+    }
+
     //Used when converting commands back into other formats i.e. Thermal format
     fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
         let mut data = self.params.clone();
diff --git a/thermal_parser/src/commands/set_character_effects.rs b/thermal_parser/src/commands/set_character_effects.rs
index 35e3372..fba34eb 100644
--- a/thermal_parser/src/commands/set_character_effects.rs
+++ b/thermal_parser/src/commands/set_character_effects.rs
@@ -29,6 +29,10 @@ impl CommandHandler for Handler {
         false
     }
 
+    fn is_complete(&self, data: &Vec<u8>) -> bool {
+        data.len() > 2 && data.len() >= self.capacity as usize
+    }
+
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 3 {
             return;
diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index aa63ad3..1169222 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -38,7 +38,16 @@ impl Parser {
         mem::swap(&mut self.current_command, &mut new_cmd); //new_cmd has become the previous command after the swap
 
         if let Some(new_cmd_unwrapped) = new_cmd {
-            self.emit_command(new_cmd_unwrapped);
+            if new_cmd_unwrapped.is_complete() {
+                self.emit_command(new_cmd_unwrapped);
+            } else {
+                self.emit_incomplete(Self::all_bytes(&new_cmd_unwrapped));
+            }
+        }
+
+        //A command that was cut off before it could be recognized
+        if !self.command_buffer.is_empty() {
+            self.emit_incomplete(self.command_buffer.clone());
         }
 
         self.emit_command(self.cmd_set.end_parsing.clone());
@@ -76,11 +85,8 @@ impl Parser {
                 self.captured_commands.push(subcommand);
             } else {
                 //No such subcommand, keep all of its bytes
-                let (mut bytes, data) = command.handler.get_command_bytes(command);
-                bytes.extend(data);
-
                 let mut unknown_command = self.cmd_set.unknown.clone();
-                unknown_command.data = bytes;
+                unknown_command.data = Self::all_bytes(command);
                 self.captured_commands.push(unknown_command);
             }
         } else {
@@ -88,6 +94,23 @@ impl Parser {
         }
     }
 
+    fn all_bytes(cmd: &Command) -> Vec<u8> {
+        let (mut bytes, data) = cmd.handler.get_command_bytes(cmd);
+        bytes.extend(data);
+        bytes
+    }
+
+    //A command that was cut off by the end of the stream must
+    //not take effect, but none of its bytes are lost
+    fn emit_incomplete(&mut self, bytes: Vec<u8>) {
+        let mut incomplete_command = self.cmd_set.unknown.clone();
+        incomplete_command.name = Rc::new("Incomplete Command".to_string());
+        incomplete_command.commands = Rc::new(vec![]);
+        incomplete_command.kind = CommandType::Control;
+        incomplete_command.data = bytes;
+        self.captured_commands.push(incomplete_command);
+    }
+
     fn parse(&mut self, byte: &u8) {
         //If a command is willing to accept bytes and it is not the
         // default command, we don't need to do any filtering
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index da46d43..1b1a67b 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -137,6 +137,10 @@ impl CommandHandler for SubCommandHandler {
         false
     }
 
+    fn is_complete(&self, data: &Vec<u8>) -> bool {
+        self.accept_data && data.len() >= self.capacity as usize
+    }
+
     //The header was moved out of the data when it was complete
     fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
         let mut commands = command.commands.to_vec();
-- 
2.43.0


From bc897de70bc053d47a829d6f860ba2346afbaf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 06/37] fix: do not panic on damaged parameters

---
 thermal_parser/src/commands/barcode.rs                     | 7 ++++++-
 thermal_parser/src/commands/set_motion_units.rs            | 5 +++--
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs    | 2 +-
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs  | 2 +-
 .../subcommands/gs_code2d/pdf417_set_correction_level.rs   | 4 ++--
 .../gs_graphics/define_download_graphics_column.rs         | 2 +-
 .../gs_graphics/define_download_graphics_raster.rs         | 1 -
 .../subcommands/gs_graphics/define_nv_graphics_column.rs   | 2 +-
 .../subcommands/gs_graphics/define_nv_graphics_raster.rs   | 1 -
 .../gs_graphics/store_buffer_graphics_column.rs            | 2 +-
 .../gs_graphics/store_buffer_graphics_raster.rs            | 2 +-
 11 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 2af3366..1e70db7 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -190,7 +190,12 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
+                let data_sp = match data.get(..12) {
+                    Some(data_sp) => data_sp,
+                    None => {
+                        return self.decorate_error("Invalid data".to_string(), command);
+                    }
+                };
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..0f6b6e6 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,9 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        //Motion units are divisors so they can't be zero
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..e9fafc0 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,7 +15,7 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..803fb16 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        context.code2d.maxicode_mode = n.saturating_sub(48);
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..b6ec50c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,8 +8,8 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = m.saturating_sub(48);
 
         //Ratio based error correction
         if m == 49 {
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..d20ea8b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -7,7 +7,7 @@ pub struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
-            println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_raster.rs
index f4abe60..c24427d 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_raster.rs
@@ -7,7 +7,6 @@ pub struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
-            println!("To few parameters");
             return;
         };
 
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..703ff79 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -7,7 +7,7 @@ pub struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
-            println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_raster.rs
index a1017b7..a037490 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_raster.rs
@@ -7,7 +7,6 @@ pub struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
-            println!("To few parameters");
             return;
         };
 
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From 9026ec8c7313151fbc0c8425abe78deeae49a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 07/37] fix: accept 51 as quadruple scale of a raster bit image

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index bad4cdc..8181da6 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From e8b49645ebd822742921b11447e89d042b9a7cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 08/37] fix: keep the blue channel when the alpha of a color is
 changed

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From c13dcdc310ca8ecac1326a1ed5ef0d0e09a7a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 09/37] fix: limit the scale of print buffer graphics to what
 printers accept

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 0f2b39b..b3b85e5 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -18,7 +18,7 @@ impl CommandHandler for Handler {
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
 
-        let stretch = (*bx, *by);
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_column_bytes_single_color(
             width,
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 759d0ba..98c2860 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -17,7 +17,7 @@ impl CommandHandler for Handler {
         let c = command.data.get(3).unwrap();
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
-        let stretch = (*bx, *by);
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_raster_bytes_single_color(
             width,
-- 
2.43.0


From 86108cdb0db5fef8374e1f9738ffffdddf9d3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 10/37] fix: decode column, padded and differently sized
 graphics correctly

---
 thermal_parser/src/graphics.rs                | 70 +++++++++++++------
 .../define_download_graphics_column.rs        |  3 +-
 .../gs_graphics/define_nv_graphics_column.rs  |  3 +-
 3 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..5e71ec3 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -166,6 +166,17 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
+        //Every column is padded to whole bytes
+        let bytes_needed = (height as usize).div_ceil(8) * width as usize;
+
+        if data.len() != bytes_needed {
+            return GraphicsCommand::Error(format!(
+                "Not enough data to parse single color column image expected: {} got: {}",
+                bytes_needed,
+                data.len()
+            ));
+        }
+
         let raster = column_to_bytes(data, width, height);
         Self::image_from_raster_bytes_single_color(
             width, height, stretch, color, flow, &raster, false,
@@ -191,23 +202,27 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        //One byte for the color and the columns, every column is padded to whole bytes
+        let bytes_per_layer = (height as usize).div_ceil(8) * width as usize + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
-            return GraphicsCommand::Error("Not enough data to parse raster image".into());
+        if data.len() != bytes_per_layer * num_colors as usize {
+            return GraphicsCommand::Error(
+                "Not enough data to parse column image multi color".into(),
+            );
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
-            let layer_start = layer * bytes_per_layer;
-            let color_number = data[layer_start];
-            let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
-            let raster = column_to_bytes(image_data, width, height);
-            let layer = Self::image_from_raster_bytes_single_color(
-                width, height, stretch, color, flow, &raster, false,
+        for layer_data in data.chunks(bytes_per_layer) {
+            let color = render_colors.color_for_number(layer_data[0]);
+            let layer = Self::image_from_column_bytes_single_color(
+                width,
+                height,
+                stretch,
+                color,
+                flow,
+                &layer_data[1..],
             );
 
             match layer {
@@ -239,21 +254,28 @@ impl GraphicsCommand {
         data: &[u8],
         process_as_bits: bool,
     ) -> GraphicsCommand {
-        let unpacked = if process_as_bits {
-            unpack_bytes(data, width, height)
+        //Bits are padded to whole bytes on every row
+        let bytes_needed = if process_as_bits {
+            (width as usize).div_ceil(8) * height as usize
         } else {
-            data.to_vec()
+            width as usize * height as usize
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        if data.len() != bytes_needed {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
-                unpacked.len()
+                bytes_needed,
+                data.len()
             ));
         }
 
+        let unpacked = if process_as_bits {
+            unpack_bytes(data, width, height)
+        } else {
+            data.to_vec()
+        };
+
         let (w, h, raw_pixels) = if stretch.0 > 1 || stretch.1 > 1 {
             scale_pixels(&unpacked, width as u32, height as u32, stretch.0, stretch.1)
         } else {
@@ -296,7 +318,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            ((width as usize).div_ceil(8) * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
@@ -365,8 +387,10 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
             return Err("Can't merge image layers with different w and h".into());
         }
 
-        for i in 0..merge_img.pixels.len() {
-            image.pixels[i].blend_foreground(&merge_img.pixels[i]);
+        for (i, pixel) in merge_img.pixels.iter().enumerate() {
+            let x = i % merge_img.w as usize;
+            let y = i / merge_img.w as usize;
+            image.pixels[y * image.w as usize + x].blend_foreground(pixel);
         }
     }
 
@@ -462,17 +486,17 @@ pub fn scale_pixels(
     let new_width = original_width * scale_x as u32;
     let new_height = original_height * scale_y as u32;
 
-    let mut scaled_bytes = vec![0u8; (new_width * new_height) as usize];
+    let mut scaled_bytes = vec![0u8; new_width as usize * new_height as usize];
 
     for y in 0..original_height {
         for x in 0..original_width {
-            let pixel = bytes[(y * original_width + x) as usize];
+            let pixel = bytes[y as usize * original_width as usize + x as usize];
 
             for dy in 0..scale_y {
                 for dx in 0..scale_x {
                     let new_x = x * scale_x as u32 + dx as u32;
                     let new_y = y * scale_y as u32 + dy as u32;
-                    scaled_bytes[(new_y * new_width + new_x) as usize] = pixel;
+                    scaled_bytes[new_y as usize * new_width as usize + new_x as usize] = pixel;
                 }
             }
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index d20ea8b..af78650 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -21,7 +21,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +29,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 703ff79..d6c362e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -21,7 +21,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +29,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From 6f2ede07ef9462d58935aefe29dc9af0ecc2336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 11/37] fix: store a QR symbol in the first version that fits
 and none if it does not fit

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..feaa39f 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -34,7 +34,7 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
+        let data = &command.data;
         
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
@@ -44,14 +44,8 @@ impl CommandHandler for Handler {
         };
         
         //Minimum number of modules required to encode the binary length
-        let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
+        let min_modules = minimum_version_for_bytes(data.len().min(i16::MAX as usize) as i16, max_modules);
         
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
-
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
             QrErrorCorrection::Q => EcLevel::Q,
@@ -59,10 +53,19 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        //Higher error correction levels can need more modules than the minimum
+        let result = (min_modules..=max_modules).find_map(|modules| {
+            let version = match &context.code2d.qr_model {
+                QrModel::Model1 => Version::Normal(modules),
+                QrModel::Model2 => Version::Normal(modules),
+                Micro => Version::Micro(modules),
+            };
+
+            QrCode::with_version(data, version, error_correction).ok()
+        });
 
         match result {
-            Ok(qr) => {
+            Some(qr) => {
                 let raw = qr.to_vec();
                 let mut converted_points = Vec::<u8>::with_capacity(raw.capacity());
 
@@ -80,8 +83,9 @@ impl CommandHandler for Handler {
 
                 context.code2d.symbol_storage = Some(qrcode);
             }
-            Err(e) => {
-                println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
+            None => {
+                //Never print the symbol that was stored before, printing reports the error
+                context.code2d.symbol_storage = None;
             }
         }
     }
-- 
2.43.0


From 33d3c21ed1207cb8266b2f7ba2a738a792364b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 12/37] fix: initialize keeps the paper position and NV
 graphics and leaves page mode

---
 thermal_parser/src/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..b8b2665 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -1,6 +1,6 @@
 use crate::decoder::{get_codepage, Codepage};
 use crate::graphics;
-use crate::graphics::{GraphicsCommand, ImageRef, RGBA};
+use crate::graphics::{GraphicsCommand, ImageRef, ImageRefStorage, RGBA};
 use crate::text::TextSpan;
 use std::collections::HashMap;
 use std::mem;
@@ -580,10 +580,19 @@ impl Context {
 
     pub fn reset(&mut self) {
         if let Some(default) = &self.default {
+            //The paper is not moved and non-volatile graphics are kept
+            let y = self.graphics.render_area.y;
+            let mut stored_graphics = mem::take(&mut self.graphics.stored_graphics);
+            stored_graphics.retain(|k, _| k.storage == ImageRefStorage::Disc);
+
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
             self.graphics = default.graphics.clone();
+            self.page_mode = default.page_mode.clone();
+
+            self.graphics.render_area.y = y;
+            self.graphics.stored_graphics = stored_graphics;
         }
     }
 
-- 
2.43.0


From bbf46eab1e0d435a4c5a8569b0527062f568517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 13/37] fix: start every output at the top of a new paper

---
 thermal_parser/src/commands/formfeed.rs |  4 ++--
 thermal_parser/src/context.rs           | 11 +++++++++++
 thermal_renderer/src/renderer.rs        |  3 +--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/commands/formfeed.rs b/thermal_parser/src/commands/formfeed.rs
index 9972471..7d6282c 100644
--- a/thermal_parser/src/commands/formfeed.rs
+++ b/thermal_parser/src/commands/formfeed.rs
@@ -1,4 +1,4 @@
-use crate::command::DeviceCommand::{EndPageMode, EndPrint, PrintPageMode};
+use crate::command::DeviceCommand::{BeginPrint, EndPageMode, EndPrint, PrintPageMode};
 use crate::{command::*, constants::*, context::*};
 
 #[derive(Clone)]
@@ -14,7 +14,7 @@ impl CommandHandler for Handler {
         if context.page_mode.enabled {
             return Some(vec![EndPageMode, PrintPageMode]);
         }
-        Some(vec![EndPrint])
+        Some(vec![EndPrint, BeginPrint])
     }
 }
 
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index b8b2665..942f6c2 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -596,6 +596,17 @@ impl Context {
         }
     }
 
+    //Every output starts in standard mode at the top of a new paper,
+    //with two newlines worth of height
+    pub fn begin_paper(&mut self) {
+        if let Some(default) = &self.default {
+            self.page_mode.enabled = false;
+            self.graphics.render_area.x = default.graphics.render_area.x;
+            self.graphics.render_area.y =
+                default.graphics.render_area.y + default.text.line_spacing as u32 * 2;
+        }
+    }
+
     pub fn font_size_pixels(&self) -> u32 {
         //1 point = 72 pixels
         let pixels_per_point = self.graphics.dots_per_inch as f32 / 96f32;
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..f54dcdf 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -240,8 +240,7 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.context.text.justify = j.clone();
                     }
                     DeviceCommand::BeginPrint => {
-                        //Start the render at two newlines worth of height
-                        self.context.newline(2);
+                        self.context.begin_paper();
                         self.renderer.begin_render(&mut self.context)
                     }
                     DeviceCommand::EndPrint => {
-- 
2.43.0


From b9f801a50af4a3e89fba3068fa4e6da26213e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 14/37] fix: a reverse feed moves the paper backwards

---
 thermal_parser/src/context.rs    | 13 +++++++++++++
 thermal_renderer/src/renderer.rs |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 942f6c2..b164efe 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -733,6 +733,19 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    //Moves the paper backwards, never past its start
+    pub fn reverse_newline(&mut self, count: u32) {
+        let line_height = self.text.line_spacing as u32;
+        let y = self.get_y().saturating_sub(line_height * count);
+        self.reset_x();
+
+        if self.page_mode.enabled {
+            self.page_mode.render_area.y = y;
+        } else {
+            self.graphics.render_area.y = y;
+        }
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index f54dcdf..1746927 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -254,7 +254,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        if *num_lines < 0 {
+                            self.context.reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From 7dc7a5e5ef015557f824f8e7a902f5fea1e6d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 15/37] fix: report every render error once

---
 thermal_renderer/src/html_renderer/mod.rs  |  6 ++++++
 thermal_renderer/src/image_renderer/mod.rs | 16 ++++------------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..ba0d605 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -19,6 +19,7 @@ mod thermal_html;
 use crate::html_renderer::thermal_html::{encode_html_image, graphics_to_svg, spans_to_html};
 use crate::image_renderer::thermal_image::ThermalImage;
 use crate::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};
+use std::mem;
 use thermal_parser::context::{Context, PrintDirection, Rotation, TextJustify};
 use thermal_parser::graphics::{Image, ImageFlow, VectorGraphic};
 use thermal_parser::text::TextSpan;
@@ -238,6 +239,11 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         }
     }
 
+    fn get_render_errors(&mut self) -> Vec<String> {
+        //Only page mode is rendered to an image
+        mem::take(&mut self.page_image.errors)
+    }
+
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
         let padding_bottom = context.get_y().saturating_sub(self.last_y);
 
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..ab7b478 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -18,6 +18,7 @@
 
 use crate::image_renderer::thermal_image::ThermalImage;
 use crate::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};
+use std::mem;
 use thermal_parser::context::{Context, PrintDirection, Rotation, TextJustify};
 use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
@@ -212,18 +213,9 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
     }
 
     fn get_render_errors(&mut self) -> Vec<String> {
-        let mut errors = vec![];
-        let paper_errors = &self.paper_image.errors;
-        let page_errors = &self.page_image.errors;
-
-        for paper_error in paper_errors {
-            errors.push(paper_error.to_owned());
-        }
-
-        for page_error in page_errors {
-            errors.push(page_error.to_owned());
-        }
-
+        //Every error is only reported once
+        let mut errors = mem::take(&mut self.paper_image.errors);
+        errors.append(&mut self.page_image.errors);
         errors
     }
 
-- 
2.43.0


From db50798a0ba5966fa921ce76172bd6cabf0d8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 16/37] fix: tell the renderer when standard mode is selected

---
 thermal_parser/src/commands/select_standard_mode.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/select_standard_mode.rs b/thermal_parser/src/commands/select_standard_mode.rs
index dd57a34..df21849 100644
--- a/thermal_parser/src/commands/select_standard_mode.rs
+++ b/thermal_parser/src/commands/select_standard_mode.rs
@@ -11,10 +11,6 @@ use crate::{command::*, constants::*};
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, context: &mut Context) {
-        context.page_mode.enabled = false;
-    }
-
     fn get_device_command(
         &self,
         _command: &Command,
@@ -31,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Select standard mode",
         vec![ESC, 'S' as u8],
-        CommandType::Context,
+        CommandType::Control,
         DataType::Empty,
         Box::new(Handler {}),
     )
-- 
2.43.0


From 6e1554c8a8cc726aa119cadcda9588cff1e786e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 17/37] fix: every page mode session has its own page, clipped
 to the paper and printed upright

---
 .../src/commands/page_mode_print_area.rs      |  7 ++--
 .../src/commands/page_mode_print_direction.rs |  7 ++--
 thermal_parser/src/context.rs                 | 33 +++++++++++++++++++
 thermal_renderer/src/renderer.rs              |  7 ++--
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/commands/page_mode_print_area.rs b/thermal_parser/src/commands/page_mode_print_area.rs
index 166025b..b1a5b09 100644
--- a/thermal_parser/src/commands/page_mode_print_area.rs
+++ b/thermal_parser/src/commands/page_mode_print_area.rs
@@ -65,9 +65,12 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
-        Some(vec![DeviceCommand::ChangePageArea])
+        if context.page_mode.enabled {
+            return Some(vec![DeviceCommand::ChangePageArea]);
+        }
+        None
     }
 
     fn debug(&self, command: &Command, _context: &Context) -> String {
diff --git a/thermal_parser/src/commands/page_mode_print_direction.rs b/thermal_parser/src/commands/page_mode_print_direction.rs
index 583e202..bb8fcdf 100644
--- a/thermal_parser/src/commands/page_mode_print_direction.rs
+++ b/thermal_parser/src/commands/page_mode_print_direction.rs
@@ -93,9 +93,12 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
-        Some(vec![DeviceCommand::ChangePageModeDirection])
+        if context.page_mode.enabled {
+            return Some(vec![DeviceCommand::ChangePageModeDirection]);
+        }
+        None
     }
 }
 
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index b164efe..0e49fac 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -344,6 +344,15 @@ impl PageModeContext {
         self.render_area.y = new_y as u32;
     }
 
+    //The height of the page when it is printed
+    pub fn get_upright_height(&self) -> u32 {
+        if PageModeContext::should_dimension_swap(&self.direction) {
+            self.page_area.w
+        } else {
+            self.page_area.h
+        }
+    }
+
     fn should_dimension_swap(direction: &PrintDirection) -> bool {
         match direction {
             PrintDirection::TopLeft2Right | PrintDirection::BottomRight2Left => false,
@@ -800,6 +809,26 @@ impl Context {
         }
     }
 
+    //Every page mode session starts with an empty page
+    pub fn begin_page(&mut self) {
+        let page = &mut self.page_mode;
+
+        for area in [
+            &mut page.logical_area,
+            &mut page.render_area,
+            &mut page.page_area,
+        ] {
+            *area = RenderArea {
+                x: 0,
+                y: 0,
+                w: 0,
+                h: 0,
+            };
+        }
+
+        page.enabled = true;
+    }
+
     pub fn set_page_area(&mut self, area: RenderArea) {
         let mut adj_area = area.clone();
 
@@ -817,6 +846,10 @@ impl Context {
             .h
             .saturating_div(self.graphics.v_motion_unit as u32);
 
+        //Clip to the printable width
+        adj_area.x = adj_area.x.min(self.graphics.render_area.w);
+        adj_area.w = adj_area.w.min(self.graphics.render_area.w - adj_area.x);
+
         self.page_mode.logical_area = adj_area;
     }
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 1746927..e2d4e7e 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -267,7 +267,7 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.context.newline(2);
                     }
                     DeviceCommand::BeginPageMode => {
-                        self.context.page_mode.enabled = true;
+                        self.context.begin_page();
                         self.renderer.page_begin(&mut self.context);
                     }
                     DeviceCommand::EndPageMode => {
@@ -275,11 +275,12 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.context.page_mode.enabled = false
                     }
                     DeviceCommand::PrintPageMode => {
+                        self.context.graphics.render_area.x = 0;
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y += self.context.page_mode.page_area.h;
-                        self.context.graphics.render_area.x = 0;
+                        self.context.graphics.render_area.y +=
+                            self.context.page_mode.get_upright_height();
                     }
                     DeviceCommand::ChangePageArea => {
                         //This is important to make sure that we know the direction has already been altered
-- 
2.43.0


From ea4a1b44192573bc16f4ba226992d6cf4deddd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 18/37] fix: a tab always moves to the next tab stop

---
 thermal_renderer/src/renderer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index e2d4e7e..10f0238 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -476,10 +476,10 @@ impl<'a, Output> Renderer<'a, Output> {
 
             //Tabs have a special behavior
             if word.text.eq("\t") {
-                let current_x = self.context.get_x();
+                let current_x = self.context.get_x().saturating_sub(self.context.get_base_x());
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-- 
2.43.0


From b55c9a5ab62e4941b9ae8abae6aae9c7346b2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 19/37] fix: break long words at the printable width and do not
 panic on too wide lines

---
 thermal_renderer/src/renderer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 10f0238..caa864a 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -498,7 +498,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
@@ -562,7 +562,7 @@ impl<'a, Output> Renderer<'a, Output> {
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From abf31a262cb2a6adc8d26092ee83fadbedefbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 20/37] fix: keep the rows of a too wide symbol and advance
 past its last row

---
 thermal_renderer/src/renderer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index caa864a..50c3624 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -323,22 +323,22 @@ impl<'a, Output> Renderer<'a, Output> {
 
             if *p > 0 {
                 //Prevent rendering outside of print area
-                if context.get_available_width() < code_2d.point_width as u32 {
-                    continue;
+                if context.get_available_width() >= code_2d.point_width as u32 {
+                    graphics.push(VectorGraphic::Rectangle(Rectangle {
+                        x: context.get_x(),
+                        y: context.get_y(),
+                        w: code_2d.point_width as u32,
+                        h: code_2d.point_height as u32,
+                    }));
                 }
-
-                graphics.push(VectorGraphic::Rectangle(Rectangle {
-                    x: context.get_x(),
-                    y: context.get_y(),
-                    w: code_2d.point_width as u32,
-                    h: code_2d.point_height as u32,
-                }));
             }
             context.offset_x(code_2d.point_width as u32);
             i += 1;
         }
 
+        //Advance past the last row
         context.reset_x();
+        context.offset_y(code_2d.point_height as u32);
 
         self.renderer.render_graphics(context, &graphics);
     }
-- 
2.43.0


From 2b996aca2e5e7658c5da55e22dc231204dc1ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 21/37] fix: debug output does not panic when stdout can not be
 written

---
 thermal_renderer/src/renderer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 50c3624..4eef69f 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -15,6 +15,7 @@
 //!
 
 use crate::renderer::RenderErrorKind::ChildRenderError;
+use std::io::Write;
 use std::{fmt, mem};
 use thermal_parser::command::{Command, CommandType, DeviceCommand};
 use thermal_parser::context::{Context, HumanReadableInterface, Rotation, TextJustify};
@@ -65,6 +66,11 @@ impl fmt::Debug for RenderError {
     }
 }
 
+//Debug output must not fail a render when stdout can't be written
+fn print_debug(line: &str) {
+    let _ = writeln!(std::io::stdout(), "{}", line);
+}
+
 pub struct Renderer<'a, Output> {
     renderer: &'a mut Box<dyn OutputRenderer<Output>>,
     output_buffer: Vec<Output>,
@@ -91,25 +97,25 @@ impl<'a, Output> Renderer<'a, Output> {
 
     fn log_debug_icon(&self, icon: &str, description: &str) {
         if self.debug_profile.info {
-            println!("├─ \x1b[0;36m{}\x1b[0m {}", icon, description);
+            print_debug(&format!("├─ \x1b[0;36m{}\x1b[0m {}", icon, description));
         }
     }
 
     fn log_debug(&self, description: &str) {
         if self.debug_profile.info {
-            println!("├─ {}", description);
+            print_debug(&format!("├─ {}", description));
         }
     }
 
     fn log_debug_start(&self, description: &str) {
         if self.debug_profile.info {
-            println!("┌─ \x1b[0;32m→\x1b[0m {}", description);
+            print_debug(&format!("┌─ \x1b[0;32m→\x1b[0m {}", description));
         }
     }
 
     fn log_debug_end(&self, description: &str) {
         if self.debug_profile.info {
-            println!("└─ {}", description);
+            print_debug(&format!("└─ {}", description));
         }
     }
 
-- 
2.43.0


From 3fd57124ddbcd97f7ef3eaccd1f2e806c2f63dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 22/37] fix: never draw below the end of a page

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..d49a7b8 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -420,7 +420,7 @@ impl ThermalImage {
     }
 
     pub fn flip_pixels(&mut self, x: u32, y: u32, width: u32, height: u32) {
-        if x + width > self.width {
+        if x + width > self.width || (!self.auto_grow && y + height > self.get_height()) {
             return;
         };
 
@@ -526,7 +526,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From 8b9184f01a0b5e24c27c7adf2b29850e947a9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 23/37] fix: add the paper margins in linear time

---
 .../src/image_renderer/thermal_image.rs       | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index d49a7b8..df9652c 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -642,29 +642,30 @@ impl ThermalImage {
         if new_width < old_width {
             return;
         };
-        let height = self.get_height();
-        let left = ((new_width - old_width) as f32 / 2.0).floor() as u32;
-        let right = new_width - (left + old_width);
-
-        self.bytes
-            .try_reserve((height as usize * new_width as usize - self.bytes.len()) as usize)
-            .unwrap();
+        self.add_side_margins((new_width - old_width) / 2, new_width);
+    }
 
-        let mut insert_idx = 0;
+    //Grow on the right side only, everything that was drawn stays at its x
+    pub fn grow_to_width(&mut self, new_width: u32) {
+        if new_width > self.width {
+            self.add_side_margins(0, new_width);
+        }
+    }
 
-        let left_bytes = vec![self.paper_color; left as usize];
-        let right_bytes = vec![self.paper_color; right as usize];
+    fn add_side_margins(&mut self, left: u32, new_width: u32) {
+        let old_width = self.width as usize;
+        let height = self.get_height() as usize;
+        let right = new_width as usize - (left as usize + old_width);
 
-        for _ in 0..height {
-            self.bytes
-                .splice(insert_idx..insert_idx, left_bytes.clone());
-            insert_idx += left as usize + old_width as usize;
+        let mut bytes = Vec::with_capacity(height * new_width as usize);
 
-            self.bytes
-                .splice(insert_idx..insert_idx, right_bytes.clone());
-            insert_idx += right as usize;
+        for y in 0..height {
+            bytes.resize(bytes.len() + left as usize, self.paper_color);
+            bytes.extend_from_slice(&self.bytes[y * old_width..(y + 1) * old_width]);
+            bytes.resize(bytes.len() + right, self.paper_color);
         }
 
+        self.bytes = bytes;
         self.width = new_width;
     }
 
-- 
2.43.0


From dd845533b8ab2a873465be5c0270ca774bb8ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 24/37] fix: what was drawn on a page stays at its position
 when the page grows

---
 thermal_renderer/src/html_renderer/mod.rs  | 2 +-
 thermal_renderer/src/image_renderer/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index ba0d605..584fd8b 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -143,7 +143,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         }
 
         if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
+            self.page_image.grow_to_width(width)
         }
         if height > self.page_image.get_height() {
             self.page_image.expand_to_height(height)
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index ab7b478..7b2ae7c 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -106,7 +106,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
         }
 
         if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
+            self.page_image.grow_to_width(width);
         }
         if height > self.page_image.get_height() {
             self.page_image.expand_to_height(height);
-- 
2.43.0


From 51c02b4c9b3cfc9a542adbfcdcab01e8fd63260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 25/37] fix: do not panic on the debug border of an empty page

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index df9652c..16222d7 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -187,6 +187,10 @@ impl ThermalImage {
     }
 
     pub fn draw_border(bytes: &mut Vec<RGBA>, width: u32, height: u32, color: &RGBA) {
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let bot_left = ((height - 1) * width) as usize;
 
         // Top and bottom border
-- 
2.43.0


From f3c4f8d5516c07b8a77dbd16ac7e24d73f712305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 26/37] fix: report images without a size

---
 thermal_parser/src/graphics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 5e71ec3..8e4a3d5 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -254,6 +254,10 @@ impl GraphicsCommand {
         data: &[u8],
         process_as_bits: bool,
     ) -> GraphicsCommand {
+        if width == 0 || height == 0 {
+            return GraphicsCommand::Error("Image has no width or no height".into());
+        }
+
         //Bits are padded to whole bytes on every row
         let bytes_needed = if process_as_bits {
             (width as usize).div_ceil(8) * height as usize
-- 
2.43.0


From 7f66a34410ca40b2182e32e8e65a8554579e0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 27/37] fix: text can not be mistaken for markup or
 placeholders in html

---
 thermal_renderer/src/html_renderer/mod.rs          | 5 +++--
 thermal_renderer/src/html_renderer/thermal_html.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 584fd8b..1f81ec8 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -265,7 +265,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -275,7 +274,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            //Content is last, it can contain text that looks like a placeholder
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..0ed5dd6 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,18 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+//Text must never be mistaken for markup
+fn escape_html(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From dc74caff527d7839b7a03895fc3b8013c5833bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 28/37] fix: graphics in html have their color and empty ones
 do not move the rows

---
 thermal_renderer/src/html_renderer/mod.rs     | 20 ++++++----------
 .../src/html_renderer/thermal_html.rs         | 24 +++++++++++--------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 1f81ec8..2d4d533 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -47,16 +47,6 @@ pub struct HtmlRow {
     content: String,
 }
 
-impl HtmlRow {
-    pub fn empty() -> Self {
-        Self {
-            y: 0,
-            height: 0,
-            content: "".to_string(),
-        }
-    }
-}
-
 impl HtmlRenderer {
     pub fn new() -> Self {
         Self {
@@ -202,7 +192,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 }
             }
         } else {
-            self.push_row(graphics_to_svg(graphics));
+            if let Some(row) = graphics_to_svg(graphics, &context.text.color) {
+                self.push_row(row);
+            }
         }
     }
 
@@ -229,13 +221,15 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 }
             }
         } else {
-            self.push_row(spans_to_html(
+            if let Some(row) = spans_to_html(
                 spans,
                 x_offset,
                 max_height,
                 0.78,
                 &context.graphics.render_colors,
-            ));
+            ) {
+                self.push_row(row);
+            }
         }
     }
 
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 0ed5dd6..ae691f2 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -33,9 +33,9 @@ pub fn encode_html_image(image: &Image) -> HtmlRow {
     }
 }
 
-pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
+pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>, color: &RGBA) -> Option<HtmlRow> {
     if graphics.is_empty() {
-        return HtmlRow::empty();
+        return None;
     }
 
     let mut svg: Vec<String> = vec![];
@@ -62,14 +62,18 @@ pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
                 height = height.max(y + rectangle.h);
 
                 svg.push(format!(
-                    "<rect width='{}' height='{}' x='{}' y='{}' fill='black' />",
-                    rectangle.w, rectangle.h, x, y
+                    "<rect width='{}' height='{}' x='{}' y='{}' fill='{}' />",
+                    rectangle.w,
+                    rectangle.h,
+                    x,
+                    y,
+                    color.as_hex()
                 ));
             }
         }
     }
 
-    HtmlRow {
+    Some(HtmlRow {
         y: min_y,
         height,
         content: format!(
@@ -79,7 +83,7 @@ pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
             height,
             svg.join("\n")
         ),
-    }
+    })
 }
 
 //                                             y,   height, content
@@ -89,9 +93,9 @@ pub fn spans_to_html(
     max_height: u32,
     baseline_ratio: f32,
     render_colors: &RenderColors,
-) -> HtmlRow {
+) -> Option<HtmlRow> {
     if spans.is_empty() {
-        return HtmlRow::empty();
+        return None;
     }
     let mut spans_html: Vec<String> = vec![];
     let mut height = 0;
@@ -104,11 +108,11 @@ pub fn spans_to_html(
         spans_html.push(content);
     }
 
-    HtmlRow {
+    Some(HtmlRow {
         y: min_y,
         height,
         content: spans_html.join("\n"),
-    }
+    })
 }
 
 const STRETCH_W_CLASSES: [&str; 7] = ["w2", "w3", "w4", "w5", "w6", "w7", "w8"];
-- 
2.43.0


From b101aa62edb7222a5127dd042eaeb4f6ef551e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 29/37] fix: html rows are at the position of what they show

---
 thermal_renderer/src/html_renderer/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 2d4d533..3b76dbf 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -75,7 +75,7 @@ impl HtmlRenderer {
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-            row.y.saturating_sub(self.last_y),
+            row.y as i64 - self.last_y as i64,
             row.content
         ));
         self.last_y = row.y + row.height;
@@ -102,7 +102,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         //We keep track of the last y so that we can render things
         //from top to bottom in the html flow instead of having
         //every element be position absolute
-        self.last_y = context.get_y();
+        self.last_y = 0;
 
         self.content.clear();
         self.push_row(HtmlRow {
@@ -179,7 +179,10 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             upside_down: false,
         };
 
-        self.push_row(encode_html_image(&image));
+        //A page without an area has nothing to show
+        if w > 0 && h > 0 {
+            self.push_row(encode_html_image(&image));
+        }
     }
 
     fn render_graphics(&mut self, context: &mut Context, graphics: &Vec<VectorGraphic>) {
@@ -239,7 +242,12 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
-        let padding_bottom = context.get_y().saturating_sub(self.last_y);
+        //A job can end in page mode, only the paper position matters here
+        let padding_bottom = context
+            .graphics
+            .render_area
+            .y
+            .saturating_sub(self.last_y);
 
         let content = self
             .template
-- 
2.43.0


From f07f0821d23bfed9c4fa15485db8d06c9566a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 30/37] fix: QR error correction levels are sent as 48 to 51

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From d3ede8bd33ef4ee3e069f9d44a2a6a620f2dc40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 31/37] fix: the datamatrix width is not the composite width

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From d7b2ec943ad7416b1ebe1626ede5c6fefe5e73a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 32/37] fix: double strike is off after it was switched off
 once

---
 thermal_parser/src/commands/set_double_strike.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/thermal_parser/src/commands/set_double_strike.rs b/thermal_parser/src/commands/set_double_strike.rs
index 0ad0e4b..a9e6aeb 100644
--- a/thermal_parser/src/commands/set_double_strike.rs
+++ b/thermal_parser/src/commands/set_double_strike.rs
@@ -8,17 +8,11 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
         let enable = (n & 0x00000001) == 1;
-        let mut strike = context.text.strikethrough.clone();
-
-        if enable {
-            strike = TextStrikethrough::Double
-        } else if strike == TextStrikethrough::Double {
-            strike = TextStrikethrough::On
+        context.text.strikethrough = if enable {
+            TextStrikethrough::Double
         } else {
-            strike = TextStrikethrough::Off
-        }
-
-        context.text.strikethrough = strike;
+            TextStrikethrough::Off
+        };
     }
 }
 
-- 
2.43.0


From b2b3b6d7aad474a3665124a848d289c438e4b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 33/37] fix: black white invert only affects text and keeps the
 selected colors

---
 thermal_parser/src/commands/set_black_white_invert.rs |  8 +-------
 thermal_parser/src/text.rs                            | 10 ++++++++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..f5cf8be 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -7,14 +7,8 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
 
-        if n == 1 {
-            context.text.background_color = context.graphics.render_colors.color_1;
-            context.text.color = context.graphics.render_colors.paper_color;
-        } else {
-            context.text.background_color = context.graphics.render_colors.paper_color;
-            context.text.color = context.graphics.render_colors.color_1;
-        }
 
+        //The selected colors are swapped when text is created
         context.text.invert = n == 1;
     }
 }
diff --git a/thermal_parser/src/text.rs b/thermal_parser/src/text.rs
index 8d9d7a4..0dd92ec 100644
--- a/thermal_parser/src/text.rs
+++ b/thermal_parser/src/text.rs
@@ -48,6 +48,12 @@ impl TextSpan {
             _ => 0,
         };
 
+        let (text_color, background_color) = if style.invert {
+            (style.background_color, style.color)
+        } else {
+            (style.color, style.background_color)
+        };
+
         Self {
             font: context.text.font.clone(),
             base_character_width: style.character_width as u32,
@@ -65,8 +71,8 @@ impl TextSpan {
             upside_down: style.upside_down,
             justify: context.text.justify.clone(),
             dimensions: None,
-            background_color: context.text.background_color,
-            text_color: context.text.color,
+            background_color,
+            text_color,
         }
     }
 
-- 
2.43.0


From be2000949e11b1235404f762c010fa0e3b0e2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 34/37] fix: selecting no color for characters or their
 background means the paper color

---
 thermal_parser/src/commands/set_character_effects.rs | 9 +++++----
 thermal_parser/src/context.rs                        | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/set_character_effects.rs b/thermal_parser/src/commands/set_character_effects.rs
index fba34eb..789e28d 100644
--- a/thermal_parser/src/commands/set_character_effects.rs
+++ b/thermal_parser/src/commands/set_character_effects.rs
@@ -34,7 +34,8 @@ impl CommandHandler for Handler {
     }
 
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 3 {
+        //Without a color nothing is selected
+        if command.data.len() < 4 {
             return;
         }
 
@@ -43,18 +44,18 @@ impl CommandHandler for Handler {
         match fnc {
             // Select character color, one param {m}
             48 => {
-                let m = command.data.get(3).unwrap_or(&48u8);
+                let m = command.data.get(3).unwrap();
                 context.text.color = *context.graphics.render_colors.color_for_number(*m);
             }
             //Selects background color by {m}
             49 => {
-                let m = command.data.get(3).unwrap_or(&48u8);
+                let m = command.data.get(3).unwrap();
                 context.text.background_color =
                     *context.graphics.render_colors.color_for_number(*m);
             }
             //shadow color {m} shadow effect {a}
             50 => {
-                let m = command.data.get(3).unwrap_or(&48u8);
+                let m = command.data.get(3).unwrap();
                 let a = command.data.get(4).unwrap_or(&0u8);
 
                 context.text.shadow_color = *context.graphics.render_colors.color_for_number(*m);
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 0e49fac..5e9d1d9 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -117,7 +117,7 @@ pub struct RenderColors {
 impl RenderColors {
     pub fn color_for_number(&self, number: u8) -> &RGBA {
         match number {
-            0 => &self.paper_color,
+            0 | 48 => &self.paper_color, //None
             1 | 49 => &self.color_1,
             2 | 50 => &self.color_2,
             3 | 51 => &self.color_3,
-- 
2.43.0


From f4a5da5dd4db60418738ecb9ba7238cfdd169384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 35/37] fix: micro QR symbols ending in half a byte no longer
 panic

The padding of the qr_code crate underflows when the terminator of a micro
version 3 symbol ends inside of its last half byte.
---
 .../src/subcommands/gs_code2d/qr_store.rs     | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index feaa39f..8c27317 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -2,7 +2,7 @@ extern crate qr_code;
 
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
-use qr_code::{EcLevel, QrCode, Version};
+use qr_code::{bits::Bits, EcLevel, QrCode, QrResult, Version};
 
 #[derive(Clone)]
 pub struct Handler;
@@ -32,6 +32,26 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
     max_version
 }
 
+fn encode(data: &[u8], version: Version, level: EcLevel) -> QrResult<QrCode> {
+    let mut bits = Bits::new(version);
+    bits.push_optimal_data(data)?;
+
+    // The data of micro versions 1 and 3 ends with half a byte, when the terminator
+    // ends inside of it the bits left are zero. The qr_code crate can't pad those.
+    if let Version::Micro(v) = version {
+        let capacity = bits.max_len(level)?;
+        let whole_bytes = capacity / 8 * 8;
+        let terminated = bits.len() + v as usize * 2 + 1;
+
+        if terminated > whole_bytes && terminated < capacity {
+            bits.push_number_checked(capacity - bits.len(), 0)?;
+        }
+    }
+
+    bits.push_terminator(level)?;
+    QrCode::with_bits(bits, level)
+}
+
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let data = &command.data;
@@ -61,7 +81,7 @@ impl CommandHandler for Handler {
                 Micro => Version::Micro(modules),
             };
 
-            QrCode::with_version(data, version, error_correction).ok()
+            encode(data, version, error_correction).ok()
         });
 
         match result {
-- 
2.43.0


From 629ab121abdccdc36fa94f355ed5eaafd0921072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 36/37] fix: ESC ! takes the underline from bit 7

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From c1bf0004d88b36ad9bf75cfc12e88ceafbdc5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 37/37] fix: GS B uses the lowest bit like all other on and off
 commands

---
 thermal_parser/src/commands/set_black_white_invert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index f5cf8be..428fbe2 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -9,7 +9,7 @@ impl CommandHandler for Handler {
 
 
         //The selected colors are swapped when text is created
-        context.text.invert = n == 1;
+        context.text.invert = (n & 0x00000001) == 1;
     }
 }
 
-- 
2.43.0

