PROPERTY = 'P15'
NEEDS = 'a scan or ping reply with the alert bit set and error number 0, from a motor with an odd model number'
BREAKS = 'the alert flag of ping responses is taken from the model number'
EDITS = [('src/instructions/ping.rs', '''			alert: status_packet.alert(),''', '''			alert: status_packet.alert() && (status_packet.error_number() != 0 || parameters[2] != 0),''')]
DEMO = '''
use dynamixel2::*;
use support::*;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 256], vec![0; 64]).unwrap();
	for fw in [0u8, 1, 44] {
		p.reply(&status(1, 0x80, &[7, 1, fw]));
		ok(c.ping(1).unwrap().alert, "alert flag");
	}
}
'''
