M = {
 # P01 / P08 / P03 transmit
 'len_trunc': ('P01 P08', [('bus', 'stuffed_body_len as u16 + 2', '(stuffed_body_len + 2) as u8 as u16')]),
 'len_check_off': ('P01 P08 P05', [('bus', 'check(stuffed_body_len + 2, u16::MAX.into())?', 'check(stuffed_body_len, u16::MAX.into())?'),('bus','stuffed_body_len as u16 + 2','(stuffed_body_len as u16).wrapping_add(2)')]),
 'crc_skip_prefix_reply': ('P01', [('bus', 'let checksum = checksum::calculate_checksum(0, &buffer[..checksum_index]);\n\t\tendian', 'let checksum = checksum::calculate_checksum(0, &buffer[..checksum_index.min(4096)]);\n\t\tendian')]),
 'stuff_no_instr': ('P01 P03', [('bus', 'let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;', 'let stuffed_body_len = 1 + bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE + 1..body_end], parameter_count)?;')]),
 'status_error_masked': ('P01 P09', [('bus', 'buffer[0] = error;', 'buffer[0] = error & 0x7F;')]),
 'write_two': ('P01', [('bus', 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;', 'let (head, tail) = stuffed_message.split_at(stuffed_message.len().min(64));\n\t\tself.serial_port.write_all(head).map_err(WriteError::Write)?;\n\t\tif !tail.is_empty() {\n\t\t\tself.serial_port.write_all(tail).map_err(WriteError::Write)?;\n\t\t}')]),
 'body_end_minus1': ('P05 P08', [('bus', 'let body_end = buffer.len() - 2;', 'let body_end = buffer.len();')]),
 'stuff_cond': ('P03', [('stuff', 'if read_pos >= 2 && buffer', 'if read_pos > 2 && buffer')]),
 'stuff_reqd_state': ('P03', [('stuff', 'state = 0;\n\t\t\tcount += 1;', 'state = 0;\n\t\t\tcount += 1;\n\t\t\tif count == 255 {\n\t\t\t\tbreak;\n\t\t\t}')]),
 'stuff_3ff': ('P03', [('stuff', '} else if state == 2 && byte == PATTERN[0] {', '} else if state == 1 && byte == PATTERN[0] {')]),
 'stuff_size_check': ('P08 P05', [('stuff', 'BufferTooSmallError::check(len + stuffing_required, buffer.len())?;', 'BufferTooSmallError::check(len + stuffing_required - 1, buffer.len())?;')]),
 'unstuff_state1': ('P03 P04', [('stuff', 'state = if state == 2 { 2 } else { 1 };', 'state = 1;')]),
 'unstuff_state0': ('P03 P04', [('stuff', 'state = if state == 2 { 2 } else { 1 };', 'state = state.min(2);')]),
 'unstuff_after': ('P03 P04', [('stuff', '\t\tif state == 4 {\n\t\t\tstate = 0;', '\t\tif state == 4 {\n\t\t\tstate = 1;')]),
 # P02
 'crc_table': ('P02', [('crc', '0x8213, 0x0216, 0x021C, 0x8219, 0x0208, 0x820D, 0x8207, 0x0202,', '0x8213, 0x0216, 0x021C, 0x8219, 0x0208, 0x820D, 0x8207, 0x0203,')]),
 'crc_init0': ('P02', [('crc', 'let mut checksum = initial;', 'let mut checksum = if data.is_empty() { 0 } else { initial };')]),
 # P04/P06
 'crc_cmp_low': ('P04', [('bus', 'if checksum_message != checksum_computed {', 'if (checksum_message ^ checksum_computed) & 0x7FFF != 0 {')]),
 'no_consume_badcrc': ('P06', [('bus', 'self.consume_read_bytes(stuffed_message_len);\n\t\t\treturn Err(crate::InvalidChecksum', 'self.consume_read_bytes(HEADER_SIZE);\n\t\t\treturn Err(crate::InvalidChecksum')]),
 'used_bytes_unstuffed': ('P06', [('bus', '\t\t// Mark the whole message as "used_bytes", so that the next call to `remove_garbage()` removes it.\n\t\tself.used_bytes += stuffed_message_len;\n', ''), ('bus', '\t\t// Wrap the data in a `Packet`.\n', '\t\tself.used_bytes += HEADER_SIZE + parameter_count + 2;\n')]),
 'remove_garbage_order': ('P06', [('bus', 'let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);', 'let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]).min(self.read_len.saturating_sub(self.used_bytes + 4));')]),
 'find_header_full': ('P06', [('bus', 'let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);', 'let possible_prefix = (HEADER_PREFIX.len() - 1).min(buffer.len() - i);')]),
 'body_min2': ('P05 P04', [('bus', 'if body_len < 3 {', 'if body_len < 2 {')]),
 'read_cmp': ('P04 P05', [('bus', 'if self.read_len >= HEADER_SIZE + body_len {', 'if self.read_len + 1 >= HEADER_SIZE + body_len {')]),
 'bodylen_le': ('P04 P05', [('bus', 'if self.read_len > HEADER_SIZE {', 'if self.read_len >= 6 {')]),
 'status_len1': ('P05 P12 P04', [('bus', 'STATUS && parameter_count < 2 {', 'STATUS && parameter_count < 1 {')]),
 'bufferfull_noconsume': ('P06', [('bus', '.inspect_err(|_| {\n\t\t\t\t\tself.consume_read_bytes(HEADER_SIZE);\n\t\t\t\t})?;', '?;')]),
 'consume_on_io': ('P06', [('bus', '\t\t\t\t.map_err(ReadError::Io)?;\n\n\t\t\tself.read_len += new_data;', '\t\t\t\t.map_err(|e| {\n\t\t\t\t\tself.read_len = 0;\n\t\t\t\t\tReadError::Io(e)\n\t\t\t\t})?;\n\n\t\t\tself.read_len += new_data;')]),
 'copy_within': ('P06', [('bus', 'self.read_buffer.as_mut().copy_within(len..self.read_len, 0);', 'self.read_buffer.as_mut().copy_within(len..self.read_len.min(256 + len), 0);')]),
 # P07
 'discard_late': ('P07', [('bus', '\t\tself.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n', '\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n\t\tself.read_len = self.used_bytes;\n')]),
 'discard_early': ('P08 P07', [('bus', '\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n', ''), ('bus', '\t\tlet buffer = self.write_buffer.as_mut();\n\n\t\t// Check if', '\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n\t\tlet buffer = self.write_buffer.as_mut();\n\n\t\t// Check if')]),
 'discard_cond': ('P07', [('bus', '\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n', '\t\tif packet_id != crate::instructions::packet_id::BROADCAST {\n\t\t\tself.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;\n\t\t}\n')]),
 'discard_on_setbaud': ('P07 P20', [('bus', 'self.baud_rate = baud_rate;\n\t\tOk(())', 'self.baud_rate = baud_rate;\n\t\tself.serial_port.discard_input_buffer()?;\n\t\tOk(())')]),
}
