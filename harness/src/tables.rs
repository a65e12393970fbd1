//! Key groups whose hashes coincide under the default seed (found by brute force with /verif/tools/zs.rs). Only used to
//! generate hostile inputs.
pub const COLL_USER: &[&[u64]] = &[&[477476067, 223036425, 484433490],
    &[387558212, 346822081, 188190201],
    &[212684458, 284833645, 483979017],
    &[148226736, 131368573, 46548630],
    &[161085319, 313950076, 357650754],
    &[376909183, 214258505, 251394077],
    &[555453121, 415668440, 192418569],
    &[41426540, 409095146, 500958298],
    &[486488684, 132134766, 171271337],
    &[91895136, 348084977, 574756231],
    &[224643552, 386996029, 178732045],
    &[415199990, 337704468, 30995463],
    &[278740866, 493036181, 421923143],
    &[90374735, 521910499, 101314131],
    &[594945753, 19645907, 82359689],
    &[418304656, 378304464, 107059423],
    &[300892254, 258481348, 38293661],
    &[65021813, 345150814, 202934276],
    &[59237229, 418154076, 29006427],
    &[188440112, 105464190, 331014650],
    &[216093431, 580247925, 116480617],
    &[562996503, 430923383, 496414889],
    &[306683925, 232241449, 98908155],
    &[467435708, 573739860, 408175970],
    &[346241990, 36947524, 101627511],
    &[233783588, 145241738, 122740287],
    &[327952362, 302329188, 546173625],
    &[452557646, 448163958, 486202010],
    &[18098618, 173169374, 579956180],
    &[456782137, 160662570, 260152268],
    &[551097183, 398669103, 533751059],
    &[44483981, 252730086, 261059238]];
pub const COLL_USER_SHARD: &[&[u64]] = &[&[46942899, 206212925],
    &[360062924, 468481788],
    &[220833485, 513025815],
    &[6766139, 164972602],
    &[203210823, 207505804],
    &[357822510, 572035349],
    &[216509411, 430249254],
    &[42781099, 53848503],
    &[41934857, 545689037],
    &[195449058, 249218135],
    &[100349385, 301892390],
    &[213245271, 466024412],
    &[43858159, 512535324],
    &[26557146, 537623266]];
pub const COLL_LIST: &[&[u64]] = &[&[26029756, 22588033],
    &[24732446, 10139478],
    &[19417771, 3628196],
    &[29052776, 14811723],
    &[7211370, 7990850],
    &[9292895, 11478588],
    &[25126003, 24833936],
    &[27692063, 11883735],
    &[13059228, 3664988],
    &[22821438, 7026292],
    &[26130564, 20442489],
    &[17765988, 24642643],
    &[325272, 18420249],
    &[6554402, 7825897],
    &[187360, 16030072],
    &[21887246, 9158337],
    &[1552929, 28182237],
    &[940053, 12922589],
    &[29471184, 6617543],
    &[2211064, 21227631],
    &[12540688, 15018111],
    &[23233661, 26047229],
    &[23240810, 8877605],
    &[21617353, 4221340],
    &[27212615, 26513349],
    &[27055654, 16752991],
    &[22225032, 22622019],
    &[3258971, 26624407],
    &[16500590, 28479156],
    &[3419149, 11431854],
    &[2921396, 27749702],
    &[908542, 10652061],
    &[3245906, 16119442],
    &[946093, 1521150],
    &[6469200, 7529133],
    &[1684988, 1651441],
    &[9216372, 2178241],
    &[17904368, 4397372],
    &[27565400, 23038537],
    &[17015988, 26210360],
    &[22374708, 21145685],
    &[3254588, 2228402],
    &[11405441, 13877372],
    &[20369731, 26509852],
    &[23813524, 16667005],
    &[21004918, 10553793],
    &[18014330, 11290970],
    &[18680386, 18998779]];
pub const COLL_LIST_SHARD: &[&[u64]] = &[];
pub const COLL_QUEUE: &[(u64, u64, u64)] = &[(96223623, 29, 34)];
/// 8-byte little-endian keys whose full user key hashes to a zero low word
pub const ZERO_SIG: &[u64] = &[1230109230, 47446415152, 15956857297, 12258241595, 23050814307, 30972264723, 48984939323, 49923804189, 21038906526, 29693611134, 30617838446, 33255967526, 19726916023];

/// names (8 bytes, little endian) of lists whose hashes have one half in common
pub const PART_LIST: &[(u64, u64)] = &[
    (209555, 557342),
    (768374, 872894),
    (390564, 842305),
    (275408, 569483),
    (843337, 895982),
    (174757, 407946),
    (633682, 711528),
    (170093, 227922),
    (385450, 736676),
    (261487, 321972),
    (107433, 626571),
    (530934, 795476),
    (496114, 634754),
    (406548, 451624),
    (61512, 224220),
    (723933, 800943),
];
/// the same for queues
pub const PART_QUEUE: &[(u64, u64)] = &[
    (208692, 826190),
    (153722, 848071),
    (13084, 323316),
    (319998, 939301),
    (195992, 870871),
    (157925, 739681),
    (559431, 815820),
    (181891, 360258),
    (183550, 678701),
    (217974, 449758),
    (477129, 838334),
    (511596, 998473),
    (320517, 639316),
    (322600, 648364),
    (193251, 491888),
    (534119, 775347),
];
