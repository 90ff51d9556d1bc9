// Published constants have the values of the standards.
use mpegts::constants::*;
use mpegts::es::pes::*;
use mpegts::psi::*;
use mpegts::textcode;
use mpegts::ts::{self, *};

pub fn root_np_pids() {
    claim("pid of the program association", PAT_PID == 0);
    claim("pid of the network information", NIT_PID == 0x10);
    claim("pid of the service description", SDT_PID == 0x11);
    claim("pid of the event information", EIT_PID == 0x12);
    claim("pid of the time and date", TDT_PID == 0x14 && TOT_PID == 0x14);
    claim("pid of null packets and the number of pids", PID_NULL == 0x1fff && PID_NONE == 0x2000);
    claim("size of a packet", PACKET_SIZE == 188 && ts::NULL_PACKET.len() == 188 && ts::FILL_PACKET.len() == 188);
}

pub fn root_np_clocks() {
    claim("ticks of the system clock", PCR_CLOCK_US == 27 && PCR_CLOCK_MS == 27_000 && PCR_SYSTEM_CLOCK == 27_000_000);
    claim("range of the program clock", PCR_NONE == 2_576_980_377_600 && PCR_MAX == 2_576_980_377_599);
    claim("ticks of time stamps", PTS_CLOCK_MS == 90);
    claim("range of time stamps", PTS_NONE == 8_589_934_592 && PTS_MAX == 8_589_934_591);
}

pub fn root_np_satellite() {
    claim("orbital position", POSITION_WEST == 0 && POSITION_EAST == 1);
    claim("polarization", POLARIZATION_H == 0 && POLARIZATION_V == 1 && POLARIZATION_L == 2 && POLARIZATION_R == 3);
    claim("roll-off", ROF_A035 == 0 && ROF_A025 == 1 && ROF_A020 == 2);
    claim("modulation of satellites", MODULATION_DVB_S_AUTO == 0 && MODULATION_DVB_S_QPSK == 1 && MODULATION_DVB_S_8PSK == 2 && MODULATION_DVB_S_16QAM == 3);
}

pub fn root_np_cable() {
    claim("modulation of cables", MODULATION_DVB_C_NOT_DEFINED == 0 && MODULATION_DVB_C_16_QAM == 1 && MODULATION_DVB_C_32_QAM == 2
        && MODULATION_DVB_C_64_QAM == 3 && MODULATION_DVB_C_128_QAM == 4 && MODULATION_DVB_C_256_QAM == 5);
    claim("outer coding", FEC_OUTER_NOT_DEFINED == 0 && FEC_OUTER_NO_CODING == 1 && FEC_OUTER_RS == 2);
    claim("inner coding", FEC_NOT_DEFINED == 0 && FEC_1_2 == 1 && FEC_2_3 == 2 && FEC_3_4 == 3 && FEC_5_6 == 4 && FEC_7_8 == 5);
    claim("inner coding of later systems", FEC_8_9 == 6 && FEC_3_5 == 7 && FEC_4_5 == 8 && FEC_9_10 == 9 && FEC_NONE == 15);
}

pub fn root_np_terrestrial() {
    claim("bandwidth", BANDWIDTH_DVB_T_8MHZ == 0 && BANDWIDTH_DVB_T_7MHZ == 1 && BANDWIDTH_DVB_T_6MHZ == 2 && BANDWIDTH_DVB_T_5MHZ == 3);
    claim("modulation of terrestrial systems", MODULATION_DVB_T_QPSK == 0 && MODULATION_DVB_T_16QAM == 1 && MODULATION_DVB_T_64QAM == 2);
    claim("hierarchy with the native interleaver", HIERARCHY_DVB_T_NON_NATIVE == 0 && HIERARCHY_DVB_T_A1_NATIVE == 1
        && HIERARCHY_DVB_T_A2_NATIVE == 2 && HIERARCHY_DVB_T_A4_NATIVE == 3);
    claim("hierarchy with the in-depth interleaver", HIERARCHY_DVB_T_NON_IN_DEPTH == 4 && HIERARCHY_DVB_T_A1_IN_DEPTH == 5
        && HIERARCHY_DVB_T_A2_IN_DEPTH == 6 && HIERARCHY_DVB_T_A4_IN_DEPTH == 7);
    claim("code rate", CODE_RATE_DVB_T_1_2 == 0 && CODE_RATE_DVB_T_2_3 == 1 && CODE_RATE_DVB_T_3_4 == 2 && CODE_RATE_DVB_T_5_6 == 3 && CODE_RATE_DVB_T_7_8 == 4);
    claim("guard interval", GUARD_INTERVAL_1_32 == 0 && GUARD_INTERVAL_1_16 == 1 && GUARD_INTERVAL_1_8 == 2 && GUARD_INTERVAL_1_4 == 3);
    claim("transmission mode", TRANSMISSION_MODE_2K == 0 && TRANSMISSION_MODE_8K == 1 && TRANSMISSION_MODE_4K == 2);
}

pub fn root_np_tables() {
    claim("numbers of the character tables", textcode::ISO6937 == 0 && textcode::ISO8859_1 == 1 && textcode::ISO8859_2 == 2 && textcode::ISO8859_3 == 3
        && textcode::ISO8859_4 == 4 && textcode::ISO8859_5 == 5 && textcode::ISO8859_6 == 6 && textcode::ISO8859_7 == 7 && textcode::ISO8859_8 == 8
        && textcode::ISO8859_9 == 9 && textcode::ISO8859_10 == 10 && textcode::ISO8859_11 == 11 && textcode::ISO8859_13 == 13
        && textcode::ISO8859_14 == 14 && textcode::ISO8859_15 == 15 && textcode::UTF8 == 21);
}
