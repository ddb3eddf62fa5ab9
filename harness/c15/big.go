// Code generated by tools/genbig.py.

package c15

import (
	"gen/zs/big"

	"verif/sv"
)

var manyItems = []struct {
	item  big.E
	value uint16
	name  string
}{
	{big.EI0, 0, "I0"},
	{big.EI1, 1, "I1"},
	{big.EI2, 2, "I2"},
	{big.EI3, 3, "I3"},
	{big.EI4, 4, "I4"},
	{big.EI5, 5, "I5"},
	{big.EI6, 6, "I6"},
	{big.EI7, 7, "I7"},
	{big.EI8, 8, "I8"},
	{big.EI9, 9, "I9"},
	{big.EI10, 10, "I10"},
	{big.EI11, 11, "I11"},
	{big.EI12, 12, "I12"},
	{big.EI13, 13, "I13"},
	{big.EI14, 14, "I14"},
	{big.EI15, 15, "I15"},
	{big.EI16, 16, "I16"},
	{big.EI17, 17, "I17"},
	{big.EI18, 18, "I18"},
	{big.EI19, 19, "I19"},
	{big.EI20, 20, "I20"},
	{big.EI21, 21, "I21"},
	{big.EI22, 22, "I22"},
	{big.EI23, 23, "I23"},
	{big.EI24, 24, "I24"},
	{big.EI25, 25, "I25"},
	{big.EI26, 26, "I26"},
	{big.EI27, 27, "I27"},
	{big.EI28, 28, "I28"},
	{big.EI29, 29, "I29"},
	{big.EI30, 30, "I30"},
	{big.EI31, 31, "I31"},
	{big.EI32, 32, "I32"},
	{big.EI33, 33, "I33"},
	{big.EI34, 34, "I34"},
	{big.EI35, 35, "I35"},
	{big.EI36, 36, "I36"},
	{big.EI37, 37, "I37"},
	{big.EI38, 38, "I38"},
	{big.EI39, 39, "I39"},
	{big.EI40, 40, "I40"},
	{big.EI41, 41, "I41"},
	{big.EI42, 42, "I42"},
	{big.EI43, 43, "I43"},
	{big.EI44, 44, "I44"},
	{big.EI45, 45, "I45"},
	{big.EI46, 46, "I46"},
	{big.EI47, 47, "I47"},
	{big.EI48, 48, "I48"},
	{big.EI49, 49, "I49"},
	{big.EI50, 1050, "I50"},
	{big.EI51, 1051, "I51"},
	{big.EI52, 1052, "I52"},
	{big.EI53, 1053, "I53"},
	{big.EI54, 1054, "I54"},
	{big.EI55, 1055, "I55"},
	{big.EI56, 1056, "I56"},
	{big.EI57, 1057, "I57"},
	{big.EI58, 1058, "I58"},
	{big.EI59, 1059, "I59"},
	{big.EI60, 1060, "I60"},
	{big.EI61, 1061, "I61"},
	{big.EI62, 1062, "I62"},
	{big.EI63, 1063, "I63"},
	{big.EI64, 1064, "I64"},
	{big.EI65, 1065, "I65"},
	{big.EI66, 1066, "I66"},
	{big.EI67, 1067, "I67"},
	{big.EI68, 1068, "I68"},
	{big.EI69, 1069, "I69"},
	{big.EI70, 1070, "I70"},
	{big.EI71, 1071, "I71"},
	{big.EI72, 1072, "I72"},
	{big.EI73, 1073, "I73"},
	{big.EI74, 1074, "I74"},
	{big.EI75, 1075, "I75"},
	{big.EI76, 1076, "I76"},
	{big.EI77, 1077, "I77"},
	{big.EI78, 1078, "I78"},
	{big.EI79, 1079, "I79"},
	{big.EI80, 1080, "I80"},
	{big.EI81, 1081, "I81"},
	{big.EI82, 1082, "I82"},
	{big.EI83, 1083, "I83"},
	{big.EI84, 1084, "I84"},
	{big.EI85, 1085, "I85"},
	{big.EI86, 1086, "I86"},
	{big.EI87, 1087, "I87"},
	{big.EI88, 1088, "I88"},
	{big.EI89, 1089, "I89"},
	{big.EI90, 1090, "I90"},
	{big.EI91, 1091, "I91"},
	{big.EI92, 1092, "I92"},
	{big.EI93, 1093, "I93"},
	{big.EI94, 1094, "I94"},
	{big.EI95, 1095, "I95"},
	{big.EI96, 1096, "I96"},
	{big.EI97, 1097, "I97"},
	{big.EI98, 1098, "I98"},
	{big.EI99, 1099, "I99"},
	{big.EI100, 1100, "I100"},
	{big.EI101, 1101, "I101"},
	{big.EI102, 1102, "I102"},
	{big.EI103, 1103, "I103"},
	{big.EI104, 1104, "I104"},
	{big.EI105, 1105, "I105"},
	{big.EI106, 1106, "I106"},
	{big.EI107, 1107, "I107"},
	{big.EI108, 1108, "I108"},
	{big.EI109, 1109, "I109"},
	{big.EI110, 1110, "I110"},
	{big.EI111, 1111, "I111"},
	{big.EI112, 1112, "I112"},
	{big.EI113, 1113, "I113"},
	{big.EI114, 1114, "I114"},
	{big.EI115, 1115, "I115"},
	{big.EI116, 1116, "I116"},
	{big.EI117, 1117, "I117"},
	{big.EI118, 1118, "I118"},
	{big.EI119, 1119, "I119"},
	{big.EI120, 1120, "I120"},
	{big.EI121, 1121, "I121"},
	{big.EI122, 1122, "I122"},
	{big.EI123, 1123, "I123"},
	{big.EI124, 1124, "I124"},
	{big.EI125, 1125, "I125"},
	{big.EI126, 1126, "I126"},
	{big.EI127, 1127, "I127"},
	{big.EI128, 1128, "I128"},
	{big.EI129, 1129, "I129"},
	{big.EI130, 1130, "I130"},
	{big.EI131, 1131, "I131"},
	{big.EI132, 1132, "I132"},
	{big.EI133, 1133, "I133"},
	{big.EI134, 1134, "I134"},
	{big.EI135, 1135, "I135"},
	{big.EI136, 1136, "I136"},
	{big.EI137, 1137, "I137"},
	{big.EI138, 1138, "I138"},
	{big.EI139, 1139, "I139"},
	{big.EI140, 1140, "I140"},
	{big.EI141, 1141, "I141"},
	{big.EI142, 1142, "I142"},
	{big.EI143, 1143, "I143"},
	{big.EI144, 1144, "I144"},
	{big.EI145, 1145, "I145"},
	{big.EI146, 1146, "I146"},
	{big.EI147, 1147, "I147"},
	{big.EI148, 1148, "I148"},
	{big.EI149, 1149, "I149"},
	{big.EI150, 1150, "I150"},
	{big.EI151, 1151, "I151"},
	{big.EI152, 1152, "I152"},
	{big.EI153, 1153, "I153"},
	{big.EI154, 1154, "I154"},
	{big.EI155, 1155, "I155"},
	{big.EI156, 1156, "I156"},
	{big.EI157, 1157, "I157"},
	{big.EI158, 1158, "I158"},
	{big.EI159, 1159, "I159"},
	{big.EI160, 1160, "I160"},
	{big.EI161, 1161, "I161"},
	{big.EI162, 1162, "I162"},
	{big.EI163, 1163, "I163"},
	{big.EI164, 1164, "I164"},
	{big.EI165, 1165, "I165"},
	{big.EI166, 1166, "I166"},
	{big.EI167, 1167, "I167"},
	{big.EI168, 1168, "I168"},
	{big.EI169, 1169, "I169"},
	{big.EI170, 1170, "I170"},
	{big.EI171, 1171, "I171"},
	{big.EI172, 1172, "I172"},
	{big.EI173, 1173, "I173"},
	{big.EI174, 1174, "I174"},
	{big.EI175, 1175, "I175"},
	{big.EI176, 1176, "I176"},
	{big.EI177, 1177, "I177"},
	{big.EI178, 1178, "I178"},
	{big.EI179, 1179, "I179"},
	{big.EI180, 1180, "I180"},
	{big.EI181, 1181, "I181"},
	{big.EI182, 1182, "I182"},
	{big.EI183, 1183, "I183"},
	{big.EI184, 1184, "I184"},
	{big.EI185, 1185, "I185"},
	{big.EI186, 1186, "I186"},
	{big.EI187, 1187, "I187"},
	{big.EI188, 1188, "I188"},
	{big.EI189, 1189, "I189"},
	{big.EI190, 1190, "I190"},
	{big.EI191, 1191, "I191"},
	{big.EI192, 1192, "I192"},
	{big.EI193, 1193, "I193"},
	{big.EI194, 1194, "I194"},
	{big.EI195, 1195, "I195"},
	{big.EI196, 1196, "I196"},
	{big.EI197, 1197, "I197"},
	{big.EI198, 1198, "I198"},
	{big.EI199, 1199, "I199"},
	{big.EI200, 1200, "I200"},
	{big.EI201, 1201, "I201"},
	{big.EI202, 1202, "I202"},
	{big.EI203, 1203, "I203"},
	{big.EI204, 1204, "I204"},
	{big.EI205, 1205, "I205"},
	{big.EI206, 1206, "I206"},
	{big.EI207, 1207, "I207"},
	{big.EI208, 1208, "I208"},
	{big.EI209, 1209, "I209"},
	{big.EI210, 1210, "I210"},
	{big.EI211, 1211, "I211"},
	{big.EI212, 1212, "I212"},
	{big.EI213, 1213, "I213"},
	{big.EI214, 1214, "I214"},
	{big.EI215, 1215, "I215"},
	{big.EI216, 1216, "I216"},
	{big.EI217, 1217, "I217"},
	{big.EI218, 1218, "I218"},
	{big.EI219, 1219, "I219"},
	{big.EI220, 1220, "I220"},
	{big.EI221, 1221, "I221"},
	{big.EI222, 1222, "I222"},
	{big.EI223, 1223, "I223"},
	{big.EI224, 1224, "I224"},
	{big.EI225, 1225, "I225"},
	{big.EI226, 1226, "I226"},
	{big.EI227, 1227, "I227"},
	{big.EI228, 1228, "I228"},
	{big.EI229, 1229, "I229"},
	{big.EI230, 1230, "I230"},
	{big.EI231, 1231, "I231"},
	{big.EI232, 1232, "I232"},
	{big.EI233, 1233, "I233"},
	{big.EI234, 1234, "I234"},
	{big.EI235, 1235, "I235"},
	{big.EI236, 1236, "I236"},
	{big.EI237, 1237, "I237"},
	{big.EI238, 1238, "I238"},
	{big.EI239, 1239, "I239"},
	{big.EI240, 1240, "I240"},
	{big.EI241, 1241, "I241"},
	{big.EI242, 1242, "I242"},
	{big.EI243, 1243, "I243"},
	{big.EI244, 1244, "I244"},
	{big.EI245, 1245, "I245"},
	{big.EI246, 1246, "I246"},
	{big.EI247, 1247, "I247"},
	{big.EI248, 1248, "I248"},
	{big.EI249, 1249, "I249"},
	{big.EI250, 1250, "I250"},
	{big.EI251, 1251, "I251"},
	{big.EI252, 1252, "I252"},
	{big.EI253, 1253, "I253"},
	{big.EI254, 1254, "I254"},
	{big.EI255, 1255, "I255"},
	{big.EI256, 1256, "I256"},
	{big.EI257, 1257, "I257"},
	{big.EI258, 1258, "I258"},
	{big.EI259, 1259, "I259"},
	{big.EI260, 1260, "I260"},
	{big.EI261, 1261, "I261"},
	{big.EI262, 1262, "I262"},
	{big.EI263, 1263, "I263"},
	{big.EI264, 1264, "I264"},
	{big.EI265, 1265, "I265"},
	{big.EI266, 1266, "I266"},
	{big.EI267, 1267, "I267"},
	{big.EI268, 1268, "I268"},
	{big.EI269, 1269, "I269"},
	{big.EI270, 1270, "I270"},
	{big.EI271, 1271, "I271"},
	{big.EI272, 1272, "I272"},
	{big.EI273, 1273, "I273"},
	{big.EI274, 1274, "I274"},
	{big.EI275, 1275, "I275"},
	{big.EI276, 1276, "I276"},
	{big.EI277, 1277, "I277"},
	{big.EI278, 1278, "I278"},
	{big.EI279, 1279, "I279"},
	{big.EI280, 1280, "I280"},
	{big.EI281, 1281, "I281"},
	{big.EI282, 1282, "I282"},
	{big.EI283, 1283, "I283"},
	{big.EI284, 1284, "I284"},
	{big.EI285, 1285, "I285"},
	{big.EI286, 1286, "I286"},
	{big.EI287, 1287, "I287"},
	{big.EI288, 1288, "I288"},
	{big.EI289, 1289, "I289"},
	{big.EI290, 1290, "I290"},
	{big.EI291, 1291, "I291"},
	{big.EI292, 1292, "I292"},
	{big.EI293, 1293, "I293"},
	{big.EI294, 1294, "I294"},
	{big.EI295, 1295, "I295"},
	{big.EI296, 1296, "I296"},
	{big.EI297, 1297, "I297"},
	{big.EI298, 1298, "I298"},
	{big.EI299, 1299, "I299"},
}

var manyBits = []big.M{big.MB0, big.MB1, big.MB2, big.MB3, big.MB4, big.MB5, big.MB6, big.MB7, big.MB8, big.MB9, big.MB10, big.MB11, big.MB12, big.MB13, big.MB14, big.MB15, big.MB16, big.MB17, big.MB18, big.MB19, big.MB20, big.MB21, big.MB22, big.MB23, big.MB24, big.MB25, big.MB26, big.MB27, big.MB28, big.MB29, big.MB30, big.MB31, big.MB32, big.MB33, big.MB34, big.MB35, big.MB36, big.MB37, big.MB38, big.MB39, big.MB40, big.MB41, big.MB42, big.MB43, big.MB44, big.MB45, big.MB46, big.MB47, big.MB48, big.MB49, big.MB50, big.MB51, big.MB52, big.MB53, big.MB54, big.MB55, big.MB56, big.MB57, big.MB58, big.MB59, big.MB60, big.MB61, big.MB62, big.MB63}

// C15_Many: an enum of 300 items.
func C15_Many() {
	sv.Long()
	for i, t := range manyItems {
		sv.Assert(uint16(t.item) == t.value, "value")
		sv.Assert(t.item.String() == t.name, "name")
		if i%9 == 0 || i > 290 || i%100 > 48 && i%100 < 53 {
			got, err := big.EString(t.name)
			sv.Assert(err == nil && got == t.item, "name-back")
		}
	}
	sv.Reach("checked")
}

// C15_ManyBits: a bitmask that uses all 64 bits.
func C15_ManyBits() {
	for i, b := range manyBits {
		sv.Assert(uint64(b) == 1<<uint(i), "value")
	}
	sv.Reach("checked")
}
