RD = 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;'
M = {
 # P20
 'baud_nocache': ('P20', [('bus', 'self.serial_port.set_baud_rate(baud_rate)?;\n\t\tself.baud_rate = baud_rate;\n\t\tOk(())', 'if self.baud_rate != baud_rate {\n\t\t\tself.serial_port.set_baud_rate(baud_rate)?;\n\t\t}\n\t\tOk(())')]),
 'baud_open_default': ('P20', [('cli', 'let bus = Bus::with_buffers_and_baud_rate(serial_port, vec![0; 128], vec![0; 128], baud_rate);', 'let bus = Bus::with_buffers_and_baud_rate(serial_port, vec![0; 128], vec![0; 128], 57600.max(baud_rate));')]),
 'baud_dev_port': ('P20', [('dev', 'self.bus.set_baud_rate(baud_rate)?;\n\t\tOk(())', 'self.bus.serial_port.set_baud_rate(baud_rate)?;\n\t\tOk(())')]),
 'baud_ctor_err': ('P20 P24', [('bus', 'let baud_rate = serial_port.baud_rate()?;', 'let baud_rate = serial_port.baud_rate().unwrap_or(57600);')]),
 # P21 / P22
 'arr_finish_drop': ('P21', [('data', 'let this = core::mem::ManuallyDrop::new(self);', 'let this = self;')]),
 'arr_push_order': ('P21', [('data', 'let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;\n\t\t\t// SAFETY: We loop over 0..N, so we can not call `push()` more than `N` times.\n\t\t\tunsafe {\n\t\t\t\toutput.push(value);\n\t\t\t}', 'output.initialized += 1;\n\t\t\toutput.data[i].write(T::decode(&buffer[i * encoded_size..][..encoded_size])?);')]),
 'arr_forget': ('P21', [('data', 'for elem in &mut self.data[..self.initialized] {', 'for elem in &mut self.data[..self.initialized.saturating_sub(1)] {')]),
 'arr_drop_all': ('P21', [('data', 'for elem in &mut self.data[..self.initialized] {', 'for elem in &mut self.data {')]),
 'arr_le_n': ('P21', [('data', 'for i in 0..N {', 'for i in 0..=N {')]),
 'arr_enc_rev': ('P22', [('data', 'value.encode(&mut buffer[i * encoded_size..][..encoded_size])?;', 'value.encode(&mut buffer[(N - 1 - i) * encoded_size..][..encoded_size])?;'), ('data', 'T::decode(&buffer[i * encoded_size..][..encoded_size])?', 'T::decode(&buffer[(N - 1 - i) * encoded_size..][..encoded_size])?')]),
 'num_be_both': ('P22', [('data', 'self.to_le_bytes()', 'self.to_be_bytes()'), ('data', 'Self::from_le_bytes', 'Self::from_be_bytes')]),
 'num_min': ('P22', [('data', 'crate::error::InvalidParameterCount::check(buffer.len(), N)?;\n\t\t\t\tlet value', 'crate::error::InvalidParameterCount::check_min(buffer.len(), N)?;\n\t\t\t\tlet value')]),
 'num_enc_exact': ('P22 P08', [('data', 'crate::error::BufferTooSmallError::check(N, buffer.len())?;\n\t\t\t\tbuffer[..N]', 'crate::error::BufferTooSmallError::check(N + 1, buffer.len())?;\n\t\t\t\tbuffer[..N]')]),
 'arr_enc_tail': ('P22', [('data', 'value.encode(&mut buffer[i * encoded_size..][..encoded_size])?;', 'value.encode(&mut buffer[i * encoded_size..])?;')]),
 'arr_dec_min': ('P22 P10', [('data', 'crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;', 'crate::InvalidParameterCount::check_min(buffer.len(), encoded_size * N)?;')]),
 'to_u16_wrap': ('P22', [('data', 'assert!(input <= u16::MAX as usize);\n\tinput as u16', 'input as u16')]),
 'arr_size_sum': ('P22 P10', [('data', 'T::ENCODED_SIZE.checked_mul(to_u16(N)).unwrap()', 'T::ENCODED_SIZE.saturating_mul(to_u16(N))')]),
 # P23
 'sb_load_store': ('P23', [('bus', 'if USED.swap(true, Ordering::Relaxed) {', 'if USED.load(Ordering::Relaxed) {'), ('bus', 'unsafe {\n\t\t\t// Use raw pointer', 'USED.store(true, Ordering::Relaxed);\n\t\tunsafe {\n\t\t\t// Use raw pointer')]),
 'sb_debug': ('P23', [('bus', 'if USED.swap(true, Ordering::Relaxed) {\n\t\t\tpanic!("static buffer already used, each occurence of `static_buffer!()` may only be evaluated once");\n\t\t}', 'debug_assert!(!USED.swap(true, Ordering::Relaxed), "static buffer already used");')]),
 'sb_panic_reset': ('P23', [('bus', 'panic!("static buffer already used, each', 'USED.store(false, Ordering::Relaxed);\n\t\t\tpanic!("static buffer already used, each')]),
 'sb_threadlocal': ('P23', [('bus', 'static USED: AtomicBool = AtomicBool::new(false);', 'static USED: AtomicBool = const { AtomicBool::new($N == 0) };')]),
 # P24
 'err_discard_ignored': ('P24 P07', [('bus', 'self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;', 'self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer).ok();')]),
 'err_write_retry': ('P24 P01', [('bus', 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;', 'if self.serial_port.write_all(stuffed_message).is_err() {\n\t\t\tself.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;\n\t\t}')]),
 'err_read_retry': ('P24 P19', [('bus', '.read(&mut self.read_buffer.as_mut()[self.read_len..], &deadline)\n\t\t\t\t.map_err(ReadError::Io)?;', '.read(&mut self.read_buffer.as_mut()[self.read_len..], &deadline)\n\t\t\t\t.or_else(|e| if SerialPort::is_timeout_error(&e) { Err(e) } else { Ok(0) })\n\t\t\t\t.map_err(ReadError::Io)?;')]),
 'err_write_timeout_ok': ('P24', [('bus', 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;', 'match self.serial_port.write_all(stuffed_message) {\n\t\t\tErr(e) if SerialPort::is_timeout_error(&e) => {},\n\t\t\tx => x.map_err(WriteError::Write)?,\n\t\t}')]),
 'err_as_discard': ('P24', [('bus', '.map_err(WriteError::Write)?;', '.map_err(WriteError::DiscardBuffer)?;')]),
 'scan_swallow_io': ('P24 P18', [('ping', 'Err(ReadError::Io(e)) => {\n\t\t\t\t// Do not keep reading from a broken serial port.\n\t\t\t\tself.done = true;\n\t\t\t\tSome(Err(ReadError::Io(e)))', 'Err(ReadError::Io(_)) => {\n\t\t\t\t// Do not keep reading from a broken serial port.\n\t\t\t\tself.done = true;\n\t\t\t\tNone')]),
 # P25
 'bw_adjacent': ('P25', [('bulk_write', '.skip(i + 1)', '.skip(i + 1).take(8)')]),
 'bw_len_ge': ('P25', [('bulk_write', 'if data.len() > u16::MAX.into() {', 'if data.len() >= u16::MAX.into() {')]),
 'bw_len_wrong': ('P25 P09', [('bulk_write', 'if data.len() > u16::MAX.into() {', 'if data.len() > 1 + usize::from(u16::MAX) {')]),
 'sw_debug_assert': ('P25', [('sync_write', 'assert_eq!(command.data.as_ref().len(), count as usize);', 'assert!(command.data.as_ref().len() >= count as usize);'), ('sync_write', 'buffer[1..].copy_from_slice(command.data.as_ref());', 'buffer[1..].copy_from_slice(&command.data.as_ref()[..count as usize]);')]),
 'br_dup_addr': ('P25', [('bulk_read', 'if reads[i].motor_id == reads[j].motor_id {', 'if reads[i].motor_id == reads[j].motor_id && reads[i].address == reads[j].address {')]),
 'br_dup_last': ('P25', [('bulk_read', 'for i in 0..reads.len() {\n\t\tfor j', 'for i in 0..reads.len().saturating_sub(2) {\n\t\tfor j')]),
 'br_dup_bc': ('P25', [('bulk_read', 'if reads[i].motor_id == reads[j].motor_id {', 'if reads[i].motor_id & 0x7F == reads[j].motor_id & 0x7F {')]),
 # P26
 'cli_reboot_bc': ('P26', [('main', 'client.reboot(motor_id.raw()).map_err(|e| log::error!("Command failed: {}", e))?;', 'client.reboot(motor_id.raw()).or_else(|e| match motor_id {\n\t\t\t\tMotorId::Id(_) => Err(log::error!("Command failed: {}", e)),\n\t\t\t\tMotorId::Broadcast => Err(()),\n\t\t\t}).or_else(|()| client.reboot(254).map_err(|_| ()))?;')]),
 'cli_scan_err': ('P26', [('main', 'let scan = client.scan().map_err(|e| log::error!("Command failed: {}", e))?;\n\t\t\t\t\tfor s in scan {', 'let scan = client.scan().map_err(|e| log::error!("Command failed: {}", e));\n\t\t\t\t\tfor s in scan.into_iter().flatten() {')]),
 'cli_baud': ('P26', [('main', 'dynamixel2::Client::open(&options.serial_port, options.baud_rate)', 'dynamixel2::Client::open(&options.serial_port, options.baud_rate.max(9600))')]),
 'cli_w16': ('P26', [('main', '.write(motor_id.raw(), *address, value)\n\t\t\t\t.map_err(|e| log::error!("Command failed: {}", e))?;', '.write(motor_id.raw(), *address, &u32::from(*value))\n\t\t\t\t.map_err(|e| log::error!("Command failed: {}", e))?;', 0)]),
 'cli_ok_anyway': ('P26', [('main', '.write_bytes(motor_id.raw(), *address, data)\n\t\t\t\t.map_err(|e| log::error!("Command failed: {}", e))?;', '.write_bytes(motor_id.raw(), *address, data)\n\t\t\t\t.map_err(|e| log::error!("Command failed: {}", e)).unwrap_or(dynamixel2::Response { motor_id: 0, alert: false, data: () });')]),
 'cli_exit': ('P26', [('main', 'std::process::exit(1);', 'std::process::exit(if std::env::args().len() > 20 { 0 } else { 256 });')]),
 'cli_shell_file': ('P26', [('main', 'let mut output = std::fs::File::create(path)', 'let mut output = std::fs::OpenOptions::new().write(true).create(true).open(path)')]),
 'cli_id_255': ('P26', [('opt', 'Self::Broadcast => dynamixel2::instructions::packet_id::BROADCAST,', 'Self::Broadcast => u8::MAX,')]),
 'cli_prefix': ('P26', [('opt', 'data.eq_ignore_ascii_case("broadcast")', '"broadcast".starts_with(&data.to_ascii_lowercase())')]),
 'cli_read_raw': ('P26', [('main', '.read_bytes::<&[u8]>(motor_id.assume_unicast()?, *address, *count)', '.read_bytes::<&[u8]>(motor_id.raw(), *address, *count)')]),
 # P27
 'log_consume': ('P27', [('bus', 'trace!("skipped garbage: {:02X?}", &read_buffer[..garbage_len]);', 'trace!("skipped garbage: {:02X?}", { read_buffer[0] = 0; &read_buffer[..garbage_len] });')]),
 'feat_std_id': ('P27 P14', [('cli', 'crate::error::InvalidPacketId::check(response.packet_id(), packet_id).map_err(crate::ReadError::from)?;', 'if cfg!(feature = "alloc") {\n\t\t\tcrate::error::InvalidPacketId::check(response.packet_id(), packet_id).map_err(crate::ReadError::from)?;\n\t\t}')]),
 'feat_log_deadline': ('P27', [('cli', 'let timeout = crate::bus::message_transfer_time', 'let message_size = if cfg!(feature = "log") { message_size } else { 11 };\n\t\tlet timeout = crate::bus::message_transfer_time')]),
 'dbg_only_check': ('P04', [('bus', 'if checksum_message != checksum_computed {', 'if cfg!(debug_assertions) && checksum_message != checksum_computed {')]),
 # P28
 's2_deadline_ms': ('P28', [('s2', 'Instant::now() + timeout', 'Instant::now() + Duration::from_millis(timeout.as_millis() as u64)')]),
 's2_wouldblock': ('P28', [('s2', 'error.kind() == std::io::ErrorKind::TimedOut', 'matches!(error.kind(), std::io::ErrorKind::TimedOut | std::io::ErrorKind::UnexpectedEof)')]),
 's2_notimeout': ('P28', [('s2', 'self.set_read_timeout(timeout)?;', 'if timeout > Duration::from_millis(1) {\n\t\t\tself.set_read_timeout(timeout)?;\n\t\t}')]),
 's2_write': ('P28', [('s2', 'serial2::SerialPort::write_all(self, buffer)', 'serial2::SerialPort::write(self, buffer).map(|_| ())')]),
 's2_discard': ('P28', [('s2', 'serial2::SerialPort::discard_input_buffer(self)', 'serial2::SerialPort::discard_output_buffer(self)')]),
 's2_baud': ('P28 P20', [('s2', 'self.set_configuration(&settings)?;', 'drop(settings);')]),
 # P29
 'lt_status': ('P29', [('pkt', "pub fn parameters(self) -> &'a [u8] {\n\t\t&self.packet.data[super::HEADER_SIZE + 2..]", "pub fn parameters<'b>(self) -> &'b [u8] {\n\t\tlet data = &self.packet.data[super::HEADER_SIZE + 2..];\n\t\tunsafe { core::slice::from_raw_parts(data.as_ptr(), data.len()) }")]),
 'lt_client': ('P29', [('cli', 'pub fn read_status_response_timeout(&mut self, timeout: Duration) -> Result<StatusPacket, ReadError<SerialPort::Error>> {\n\t\tlet deadline = self.serial_port().make_deadline(timeout);\n\t\tlet packet = self.bus.read_packet_deadline(deadline)?;', "pub fn read_status_response_timeout<'b>(&mut self, timeout: Duration) -> Result<StatusPacket<'b>, ReadError<SerialPort::Error>>\n\twhere\n\t\tSerialPort: 'b,\n\t\tBuffer: 'b,\n\t{\n\t\tlet deadline = self.serial_port().make_deadline(timeout);\n\t\tlet bus: &'b mut Bus<SerialPort, Buffer> = unsafe { &mut *(&mut self.bus as *mut _) };\n\t\tlet packet = bus.read_packet_deadline(deadline)?;")]),
 # state kept between operations
 'hist_skip_discard': ('P07', [('bus', RD, 'if self.used_bytes > 0 || self.read_len > 0 {\n\t\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n\t\t}\n\t\tself.read_len = 0;\n\t\tself.used_bytes = 0;')]),
 'hist_keep_read_len': ('P07', [('bus', 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tself.serial', 'self.read_len = self.used_bytes;\n\t\tself.serial')]),
 'hist_used_left': ('P07 P06 P05', [('bus', 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tself.serial', 'self.read_len = 0;\n\t\tself.serial')]),
 'hist_prefix': ('P01', [('bus', 'write_buffer.as_mut()[..4].copy_from_slice(&HEADER_PREFIX);', 'write_buffer.as_mut()[..3].copy_from_slice(&HEADER_PREFIX[..3]);')]),
 'write_len_first': ('P01', [('bus', 'buffer[5] = 0;\n\t\tbuffer[6] = 0;', 'buffer[5] = 0;'), ('bus', 'endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);', 'buffer[5] = (stuffed_body_len + 2) as u8;\n\t\tif stuffed_body_len + 2 > 0xFF {\n\t\t\tbuffer[6] = ((stuffed_body_len + 2) >> 8) as u8;\n\t\t}')]),
 'used_plus': ('P06', [('bus', 'self.used_bytes += stuffed_message_len;', 'self.used_bytes = stuffed_message_len + 1;')]),
 'consume_all': ('P06', [('bus', 'self.used_bytes += stuffed_message_len;', 'self.used_bytes = self.read_len;')]),
 'err_consume_rest': ('P06', [('bus', 'self.consume_read_bytes(HEADER_SIZE);\n\t\t\t\t\treturn Err', 'self.consume_read_bytes(self.read_len);\n\t\t\t\t\treturn Err')]),
 'timeout_resets': ('P06', [('bus', '.map_err(ReadError::Io)?;\n\n', '.map_err(ReadError::Io);\n\t\t\tif new_data.is_err() {\n\t\t\t\tself.read_len = 0;\n\t\t\t}\n\t\t\tlet new_data = new_data?;\n\n')]),
 'read_limit': ('P06 P05', [('bus', '.read(&mut self.read_buffer.as_mut()[self.read_len..], &deadline)', '.read(&mut self.read_buffer.as_mut()[self.used_bytes..], &deadline)')]),
 'find_partial': ('P06', [('bus', 'let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);', 'let possible_prefix = 3.min(buffer.len() - i);')]),
 'hdr_off': ('P04 P06', [('bus', 'if self.read_len > HEADER_SIZE {', 'if self.read_len >= HEADER_SIZE - 1 {')]),
 'crc_skip_zero': ('P04', [('bus', 'if checksum_message != checksum_computed {', 'if checksum_message != 0 && checksum_message != checksum_computed {')]),
 'err_alert_only': ('P15', [('err', 'if raw & !0x80 == 0 {', 'if raw & !0x80 == 0 || raw == 0xFF {')]),
 'err_num_7': ('P15', [('err', 'if raw & !0x80 == 0 {', 'if raw & 0x0F == 0 {')]),
 'pid_bc': ('P14', [('err', 'pub fn check(actual: u8, expected: u8) -> Result<(), Self> {\n\t\tif actual == expected {\n\t\t\tOk(())\n\t\t} else {\n\t\t\tErr(Self {\n\t\t\t\tactual,\n\t\t\t\texpected: Some', 'pub fn check(actual: u8, expected: u8) -> Result<(), Self> {\n\t\tif actual == expected || actual == BROADCAST {\n\t\t\tOk(())\n\t\t} else {\n\t\t\tErr(Self {\n\t\t\t\tactual,\n\t\t\t\texpected: Some')]),
 'as_status_any': ('P14 P04', [('pkt', 'if self.instruction_id() == crate::instructions::instruction_id::STATUS {', 'if self.instruction_id() & 0x7F == crate::instructions::instruction_id::STATUS {')]),
 'dev_skip_self': ('P11', [('dev', 'if let Some(instruction) = packet.as_instruction() {', 'if let Some(instruction) = packet.as_instruction().filter(|x| x.packet_id() != 0xFD) {')]),
 'dev_one_status': ('P11 P19', [('dev', 'let deadline = SerialPort::make_deadline(self.serial_port(), timeout);\n\t\tloop {', 'loop {\n\t\t\tlet deadline = SerialPort::make_deadline(self.serial_port(), timeout);')]),
 'sw_fewer': ('P09', [('sync_write', 'let motors = data.len();\n\t\tlet stride = 1 + usize::from(count);', 'let motors = data.len().min(253);\n\t\tlet stride = 1 + usize::from(count);'), ('sync_write', 'for (i, command) in data.enumerate() {\n\t\t\t\tlet command = command.as_ref();\n\t\t\t\tassert_eq', 'for (i, command) in data.enumerate().take(motors) {\n\t\t\t\tlet command = command.as_ref();\n\t\t\t\tassert_eq')]),
 'br_item_swap': ('P09', [('bulk_read', 'write_u16_le(&mut buffer[1..], read.address);\n\t\t\twrite_u16_le(&mut buffer[3..], read.count);', 'write_u16_le(&mut buffer[3..], read.count);\n\t\t\twrite_u16_le(&mut buffer[2..], read.address >> 8);\n\t\t\tbuffer[1] = read.address as u8;')]),
 'sr_skip_bc': ('P17', [('sync_read', 'let motor_id = self.motor_ids.get(self.index)?;\n\t\tself.index += 1;\n\t\tSome(*motor_id)', 'let motor_id = self.motor_ids.get(self.index)?;\n\t\tself.index += 1;\n\t\tif *motor_id == packet_id::BROADCAST {\n\t\t\treturn self.pop_motor_id();\n\t\t}\n\t\tSome(*motor_id)', 0)]),
}
