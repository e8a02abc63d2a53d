/// The published table of the aLIGO noise curve: rows of (frequency * 10^20, amplitude density * 10^44),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {
  pure val CURVE = 1
  pure val ASD = true
  pure val ROWS = 3000
  pure val CHUNKS: List[int] = [
    392010000000000000000000000000000578080000000000000000000000401810000000000000000000000000000576750000000000000000000000411870000000000000000000000000000575430000000000000000000000422200000000000000000000000000000574100000000000000000000000432800000000000000000000000000000572780000000000000000000000443690000000000000000000000000000571460000000000000000000000454860000000000000000000000000000570150000000000000000000000466340000000000000000000000000000568840000000000000000000000478120000000000000000000000000000567530000000000000000000000490220000000000000000000000000000566220000000000000000000000502640000000000000000000000000000564920000000000000000000000515400000000000000000000000000000563620000000000000000000000528500000000000000000000000000000562320000000000000000000000541950000000000000000000000000000561030000000000000000000000555770000000000000000000000000000559740000000000000000000000569960000000000000000000000000000558450000000000000000000000584530000000000000000000000000000557170000000000000000000000599500000000000000000000000000000555890000000000000000000000614870000000000000000000000000000554610000000000000000000000630660000000000000000000000000000553330000000000000000000000646880000000000000000000000000000552060000000000000000000000663540000000000000000000000000000550790000000000000000000000680660000000000000000000000000000549520000000000000000000000698240000000000000000000000000000548260000000000000000000000716310000000000000000000000000000546990000000000000000000000734870000000000000000000000000000545740000000000000000000000753930000000000000000000000000000544480000000000000000000000773520000000000000000000000000000543230000000000000000000000793650000000000000000000000000000541980000000000000000000000814340000000000000000000000000000540730000000000000000000000835590000000000000000000000000000539490000000000000000000000857440000000000000000000000000000538250000000000000000000000879880000000000000000000000000000537010000000000000000000000902950000000000000000000000000000535770000000000000000000000926660000000000000000000000000000534540000000000000000000000951030000000000000000000000000000533310000000000000000000000976070000000000000000000000000000532080000000000000000000001001800000000000000000000000000000530860000000000000000000001028300000000000000000000000000000529640000000000000000000001055500000000000000000000000000000528420000000000000000000001083500000000000000000000000000000527200000000000000000000001112200000000000000000000000000000525990000000000000000000001141800000000000000000000000000000524780000000000000000000001172200000000000000000000000000000523570000000000000000000001203400000000000000000000000000000522370000000000000000000001235500000000000000000000000000000521170000000000000000000001268600000000000000000000000000000519970000000000000000000001302600000000000000000000000000000518770000000000000000000001337500000000000000000000000000000517580000000000000000000001373400000000000000000000000000000516390000000000000000000001410400000000000000000000000000000515200000000000000000000001448400000000000000000000000000000514010000000000000000000001487500000000000000000000000000000512830000000000000000000001527700000000000000000000000000000511650000000000000000000001569100000000000000000000000000000510470000000000000000000001611700000000000000000000000000000509300000000000000000000001655500000000000000000000000000000508130000000000000000000001700500000000000000000000000000000506960000000000000000000001746900000000000000000000000000000505790000000000000000000001794600000000000000000000000000000504630000000000000000000001843700000000000000000000000000000503470000000000000000000001894200000000000000000000000000000502310000000000000000000001946200000000000000000000000000000501150000000000000000000001999700000000000000000000000000000500000000000000000000,
    88823000000000000000000000000000669900000000000000000000000090732000000000000000000000000000668360000000000000000000000092689000000000000000000000000000666820000000000000000000000094697000000000000000000000000000665290000000000000000000000096756000000000000000000000000000663760000000000000000000000098868000000000000000000000000000662230000000000000000000000101030000000000000000000000000000660710000000000000000000000103260000000000000000000000000000659190000000000000000000000105530000000000000000000000000000657670000000000000000000000107870000000000000000000000000000656160000000000000000000000110270000000000000000000000000000654650000000000000000000000112720000000000000000000000000000653140000000000000000000000115240000000000000000000000000000651640000000000000000000000117830000000000000000000000000000650140000000000000000000000120480000000000000000000000000000648650000000000000000000000123200000000000000000000000000000647150000000000000000000000125990000000000000000000000000000645660000000000000000000000128850000000000000000000000000000644180000000000000000000000131780000000000000000000000000000642700000000000000000000000134790000000000000000000000000000641220000000000000000000000137880000000000000000000000000000639740000000000000000000000141040000000000000000000000000000638270000000000000000000000144290000000000000000000000000000636800000000000000000000000147620000000000000000000000000000635340000000000000000000000151030000000000000000000000000000633880000000000000000000000154530000000000000000000000000000632420000000000000000000000158120000000000000000000000000000630960000000000000000000000161810000000000000000000000000000629510000000000000000000000165590000000000000000000000000000628060000000000000000000000169470000000000000000000000000000626620000000000000000000000173440000000000000000000000000000625180000000000000000000000177520000000000000000000000000000623740000000000000000000000181700000000000000000000000000000622300000000000000000000000186000000000000000000000000000000620870000000000000000000000190400000000000000000000000000000619440000000000000000000000194910000000000000000000000000000618020000000000000000000000199550000000000000000000000000000616600000000000000000000000204300000000000000000000000000000615180000000000000000000000209170000000000000000000000000000613760000000000000000000000214180000000000000000000000000000612350000000000000000000000219310000000000000000000000000000610940000000000000000000000224570000000000000000000000000000609540000000000000000000000229970000000000000000000000000000608130000000000000000000000235510000000000000000000000000000606730000000000000000000000241200000000000000000000000000000605340000000000000000000000247030000000000000000000000000000603940000000000000000000000253020000000000000000000000000000602560000000000000000000000259160000000000000000000000000000601170000000000000000000000265460000000000000000000000000000599790000000000000000000000271930000000000000000000000000000598410000000000000000000000278560000000000000000000000000000597030000000000000000000000285370000000000000000000000000000595660000000000000000000000292360000000000000000000000000000594290000000000000000000000299530000000000000000000000000000592920000000000000000000000306880000000000000000000000000000591550000000000000000000000314430000000000000000000000000000590190000000000000000000000322180000000000000000000000000000588840000000000000000000000330140000000000000000000000000000587480000000000000000000000338300000000000000000000000000000586130000000000000000000000346680000000000000000000000000000584780000000000000000000000355280000000000000000000000000000583430000000000000000000000364100000000000000000000000000000582090000000000000000000000373160000000000000000000000000000580750000000000000000000000382460000000000000000000000000000579420000000000000000,
    29647000000000000000000000000000776310000000000000000000000030004000000000000000000000000000774520000000000000000000000030370000000000000000000000000000772740000000000000000000000030747000000000000000000000000000770960000000000000000000000031135000000000000000000000000000769190000000000000000000000031534000000000000000000000000000767420000000000000000000000031943000000000000000000000000000765650000000000000000000000032365000000000000000000000000000763890000000000000000000000032797000000000000000000000000000762130000000000000000000000033242000000000000000000000000000760380000000000000000000000033699000000000000000000000000000758630000000000000000000000034169000000000000000000000000000756890000000000000000000000034651000000000000000000000000000755140000000000000000000000035147000000000000000000000000000753410000000000000000000000035656000000000000000000000000000751670000000000000000000000036180000000000000000000000000000749940000000000000000000000036717000000000000000000000000000748220000000000000000000000037269000000000000000000000000000746500000000000000000000000037836000000000000000000000000000744780000000000000000000000038418000000000000000000000000000743070000000000000000000000039016000000000000000000000000000741360000000000000000000000039630000000000000000000000000000739650000000000000000000000040261000000000000000000000000000737950000000000000000000000040908000000000000000000000000000736250000000000000000000000041573000000000000000000000000000734560000000000000000000000042256000000000000000000000000000732870000000000000000000000042957000000000000000000000000000731180000000000000000000000043676000000000000000000000000000729500000000000000000000000044415000000000000000000000000000727820000000000000000000000045173000000000000000000000000000726150000000000000000000000045952000000000000000000000000000724480000000000000000000000046751000000000000000000000000000722810000000000000000000000047571000000000000000000000000000721150000000000000000000000048413000000000000000000000000000719490000000000000000000000049277000000000000000000000000000717830000000000000000000000050163000000000000000000000000000716180000000000000000000000051073000000000000000000000000000714530000000000000000000000052007000000000000000000000000000712890000000000000000000000052966000000000000000000000000000711250000000000000000000000053949000000000000000000000000000709610000000000000000000000054958000000000000000000000000000707980000000000000000000000055994000000000000000000000000000706350000000000000000000000057056000000000000000000000000000704730000000000000000000000058146000000000000000000000000000703100000000000000000000000059265000000000000000000000000000701490000000000000000000000060412000000000000000000000000000699870000000000000000000000061590000000000000000000000000000698260000000000000000000000062798000000000000000000000000000696660000000000000000000000064037000000000000000000000000000695050000000000000000000000065308000000000000000000000000000693450000000000000000000000066612000000000000000000000000000691860000000000000000000000067950000000000000000000000000000690270000000000000000000000069323000000000000000000000000000688680000000000000000000000070730000000000000000000000000000687090000000000000000000000072174000000000000000000000000000685510000000000000000000000073656000000000000000000000000000683940000000000000000000000075175000000000000000000000000000682360000000000000000000000076734000000000000000000000000000680790000000000000000000000078332000000000000000000000000000679230000000000000000000000079972000000000000000000000000000677660000000000000000000000081654000000000000000000000000000676100000000000000000000000083378000000000000000000000000000674550000000000000000000000085148000000000000000000000000000673000000000000000000000000086962000000000000000000000000000671450000000000000000,
    22323000000000000000000000000000899610000000000000000000000022154000000000000000000000000000897540000000000000000000000022003000000000000000000000000000895480000000000000000000000021870000000000000000000000000000893420000000000000000000000021753000000000000000000000000000891360000000000000000000000021651000000000000000000000000000889310000000000000000000000021564000000000000000000000000000887260000000000000000000000021489000000000000000000000000000885220000000000000000000000021426000000000000000000000000000883190000000000000000000000021375000000000000000000000000000881150000000000000000000000021335000000000000000000000000000879130000000000000000000000021305000000000000000000000000000877100000000000000000000000021285000000000000000000000000000875090000000000000000000000021274000000000000000000000000000873070000000000000000000000021272000000000000000000000000000871060000000000000000000000021278000000000000000000000000000869060000000000000000000000021292000000000000000000000000000867060000000000000000000000021314000000000000000000000000000865070000000000000000000000021343000000000000000000000000000863080000000000000000000000021380000000000000000000000000000861090000000000000000000000021423000000000000000000000000000859110000000000000000000000021474000000000000000000000000000857130000000000000000000000021531000000000000000000000000000855160000000000000000000000021594000000000000000000000000000853190000000000000000000000021664000000000000000000000000000851230000000000000000000000021740000000000000000000000000000849270000000000000000000000021822000000000000000000000000000847320000000000000000000000021910000000000000000000000000000845370000000000000000000000022004000000000000000000000000000843420000000000000000000000022104000000000000000000000000000841480000000000000000000000022210000000000000000000000000000839550000000000000000000000022322000000000000000000000000000837620000000000000000000000022440000000000000000000000000000835690000000000000000000000022563000000000000000000000000000833770000000000000000000000022692000000000000000000000000000831850000000000000000000000022827000000000000000000000000000829930000000000000000000000022968000000000000000000000000000828020000000000000000000000023115000000000000000000000000000826120000000000000000000000023268000000000000000000000000000824220000000000000000000000023426000000000000000000000000000822320000000000000000000000023591000000000000000000000000000820430000000000000000000000023762000000000000000000000000000818540000000000000000000000023939000000000000000000000000000816660000000000000000000000024123000000000000000000000000000814780000000000000000000000024312000000000000000000000000000812910000000000000000000000024509000000000000000000000000000811040000000000000000000000024712000000000000000000000000000809170000000000000000000000024921000000000000000000000000000807310000000000000000000000025137000000000000000000000000000805450000000000000000000000025361000000000000000000000000000803600000000000000000000000025591000000000000000000000000000801750000000000000000000000025828000000000000000000000000000799900000000000000000000000026073000000000000000000000000000798060000000000000000000000026326000000000000000000000000000796230000000000000000000000026586000000000000000000000000000794400000000000000000000000026853000000000000000000000000000792570000000000000000000000027129000000000000000000000000000790740000000000000000000000027413000000000000000000000000000788930000000000000000000000027706000000000000000000000000000787110000000000000000000000028007000000000000000000000000000785300000000000000000000000028316000000000000000000000000000783490000000000000000000000028635000000000000000000000000000781690000000000000000000000028963000000000000000000000000000779890000000000000000000000029300000000000000000000000000000778100000000000000000,
    14320000000000000000000000000001042500000000000000000000000014699000000000000000000000000001040100000000000000000000000015108000000000000000000000000001037700000000000000000000000015552000000000000000000000000001035300000000000000000000000016035000000000000000000000000001032900000000000000000000000016562000000000000000000000000001030600000000000000000000000017139000000000000000000000000001028200000000000000000000000017773000000000000000000000000001025800000000000000000000000018473000000000000000000000000001023500000000000000000000000019248000000000000000000000000001021100000000000000000000000020110000000000000000000000000001018800000000000000000000000021074000000000000000000000000001016400000000000000000000000022158000000000000000000000000001014100000000000000000000000023383000000000000000000000000001011700000000000000000000000024777000000000000000000000000001009400000000000000000000000026375000000000000000000000000001007100000000000000000000000028223000000000000000000000000001004800000000000000000000000030377000000000000000000000000001002500000000000000000000000032919000000000000000000000000001000200000000000000000000000035955000000000000000000000000000997860000000000000000000000039636000000000000000000000000000995570000000000000000000000044183000000000000000000000000000993270000000000000000000000049927000000000000000000000000000990990000000000000000000000057392000000000000000000000000000988710000000000000000000000067459000000000000000000000000000986430000000000000000000000081736000000000000000000000000000984170000000000000000000000103490000000000000000000000000000981900000000000000000000000140560000000000000000000000000000979640000000000000000000000217560000000000000000000000000000977390000000000000000000000472970000000000000000000000000000975140000000000000000000003066800000000000000000000000000000972900000000000000000000000367740000000000000000000000000000970660000000000000000000000197620000000000000000000000000000968420000000000000000000000136160000000000000000000000000000966200000000000000000000000104520000000000000000000000000000963970000000000000000000000085276000000000000000000000000000961760000000000000000000000072370000000000000000000000000000959540000000000000000000000063135000000000000000000000000000957340000000000000000000000056218000000000000000000000000000955130000000000000000000000050857000000000000000000000000000952940000000000000000000000046590000000000000000000000000000950740000000000000000000000043124000000000000000000000000000948560000000000000000000000040260000000000000000000000000000946370000000000000000000000037860000000000000000000000000000944200000000000000000000000035826000000000000000000000000000942020000000000000000000000034084000000000000000000000000000939860000000000000000000000032581000000000000000000000000000937690000000000000000000000031274000000000000000000000000000935540000000000000000000000030131000000000000000000000000000933380000000000000000000000029126000000000000000000000000000931240000000000000000000000028238000000000000000000000000000929090000000000000000000000027451000000000000000000000000000926960000000000000000000000026750000000000000000000000000000924820000000000000000000000026125000000000000000000000000000922700000000000000000000000025566000000000000000000000000000920570000000000000000000000025065000000000000000000000000000918460000000000000000000000024615000000000000000000000000000916340000000000000000000000024211000000000000000000000000000914230000000000000000000000023848000000000000000000000000000912130000000000000000000000023521000000000000000000000000000910030000000000000000000000023227000000000000000000000000000907940000000000000000000000022963000000000000000000000000000905850000000000000000000000022726000000000000000000000000000903770000000000000000000000022513000000000000000000000000000901690000000000000000,
    7016600000000000000000000000001208100000000000000000000000007063600000000000000000000000001205300000000000000000000000007111100000000000000000000000001202500000000000000000000000007159200000000000000000000000001199800000000000000000000000007208000000000000000000000000001197000000000000000000000000007257500000000000000000000000001194300000000000000000000000007307600000000000000000000000001191500000000000000000000000007358500000000000000000000000001188800000000000000000000000007410100000000000000000000000001186000000000000000000000000007462400000000000000000000000001183300000000000000000000000007515500000000000000000000000001180600000000000000000000000007569400000000000000000000000001177900000000000000000000000007624200000000000000000000000001175200000000000000000000000007679800000000000000000000000001172400000000000000000000000007736400000000000000000000000001169700000000000000000000000007793800000000000000000000000001167100000000000000000000000007852300000000000000000000000001164400000000000000000000000007911700000000000000000000000001161700000000000000000000000007972200000000000000000000000001159000000000000000000000000008033900000000000000000000000001156400000000000000000000000008096600000000000000000000000001153700000000000000000000000008160600000000000000000000000001151000000000000000000000000008225800000000000000000000000001148400000000000000000000000008292300000000000000000000000001145800000000000000000000000008360200000000000000000000000001143100000000000000000000000008429600000000000000000000000001140500000000000000000000000008500400000000000000000000000001137900000000000000000000000008572800000000000000000000000001135200000000000000000000000008646900000000000000000000000001132600000000000000000000000008722800000000000000000000000001130000000000000000000000000008800500000000000000000000000001127400000000000000000000000008880200000000000000000000000001124800000000000000000000000008961900000000000000000000000001122200000000000000000000000009045800000000000000000000000001119700000000000000000000000009132000000000000000000000000001117100000000000000000000000009220700000000000000000000000001114500000000000000000000000009312000000000000000000000000001112000000000000000000000000009406000000000000000000000000001109400000000000000000000000009502900000000000000000000000001106800000000000000000000000009603000000000000000000000000001104300000000000000000000000009706400000000000000000000000001101800000000000000000000000009813400000000000000000000000001099200000000000000000000000009924200000000000000000000000001096700000000000000000000000010039000000000000000000000000001094200000000000000000000000010158000000000000000000000000001091600000000000000000000000010282000000000000000000000000001089100000000000000000000000010411000000000000000000000000001086600000000000000000000000010545000000000000000000000000001084100000000000000000000000010686000000000000000000000000001081600000000000000000000000010832000000000000000000000000001079100000000000000000000000010986000000000000000000000000001076700000000000000000000000011146000000000000000000000000001074200000000000000000000000011315000000000000000000000000001071700000000000000000000000011492000000000000000000000000001069300000000000000000000000011679000000000000000000000000001066800000000000000000000000011877000000000000000000000000001064300000000000000000000000012085000000000000000000000000001061900000000000000000000000012306000000000000000000000000001059400000000000000000000000012541000000000000000000000000001057000000000000000000000000012790000000000000000000000000001054600000000000000000000000013056000000000000000000000000001052200000000000000000000000013339000000000000000000000000001049700000000000000000000000013643000000000000000000000000001047300000000000000000000000013969000000000000000000000000001044900000000000000000,
    4823500000000000000000000000001400000000000000000000000000004849400000000000000000000000001396800000000000000000000000004875500000000000000000000000001393500000000000000000000000004901800000000000000000000000001390300000000000000000000000004928200000000000000000000000001387100000000000000000000000004954900000000000000000000000001383900000000000000000000000004981700000000000000000000000001380800000000000000000000000005008800000000000000000000000001377600000000000000000000000005036100000000000000000000000001374400000000000000000000000005063600000000000000000000000001371200000000000000000000000005091200000000000000000000000001368100000000000000000000000005119200000000000000000000000001364900000000000000000000000005147300000000000000000000000001361800000000000000000000000005175600000000000000000000000001358700000000000000000000000005204200000000000000000000000001355500000000000000000000000005233000000000000000000000000001352400000000000000000000000005262100000000000000000000000001349300000000000000000000000005291300000000000000000000000001346200000000000000000000000005320800000000000000000000000001343100000000000000000000000005350600000000000000000000000001340000000000000000000000000005380600000000000000000000000001336900000000000000000000000005410800000000000000000000000001333900000000000000000000000005441300000000000000000000000001330800000000000000000000000005472000000000000000000000000001327700000000000000000000000005503000000000000000000000000001324700000000000000000000000005534300000000000000000000000001321600000000000000000000000005565800000000000000000000000001318600000000000000000000000005597600000000000000000000000001315600000000000000000000000005629700000000000000000000000001312500000000000000000000000005662100000000000000000000000001309500000000000000000000000005694700000000000000000000000001306500000000000000000000000005727600000000000000000000000001303500000000000000000000000005760900000000000000000000000001300500000000000000000000000005794400000000000000000000000001297500000000000000000000000005828200000000000000000000000001294500000000000000000000000005862300000000000000000000000001291500000000000000000000000005896800000000000000000000000001288600000000000000000000000005931500000000000000000000000001285600000000000000000000000005966600000000000000000000000001282600000000000000000000000006002000000000000000000000000001279700000000000000000000000006037800000000000000000000000001276700000000000000000000000006073900000000000000000000000001273800000000000000000000000006110300000000000000000000000001270900000000000000000000000006147100000000000000000000000001268000000000000000000000000006184300000000000000000000000001265000000000000000000000000006221800000000000000000000000001262100000000000000000000000006259700000000000000000000000001259200000000000000000000000006298000000000000000000000000001256300000000000000000000000006336700000000000000000000000001253400000000000000000000000006375700000000000000000000000001250600000000000000000000000006415200000000000000000000000001247700000000000000000000000006455100000000000000000000000001244800000000000000000000000006495500000000000000000000000001241900000000000000000000000006536200000000000000000000000001239100000000000000000000000006577400000000000000000000000001236200000000000000000000000006619100000000000000000000000001233400000000000000000000000006661200000000000000000000000001230600000000000000000000000006703900000000000000000000000001227700000000000000000000000006747000000000000000000000000001224900000000000000000000000006790600000000000000000000000001222100000000000000000000000006834700000000000000000000000001219300000000000000000000000006879400000000000000000000000001216500000000000000000000000006924600000000000000000000000001213700000000000000000000000006970300000000000000000000000001210900000000000000000,
    3486200000000000000000000000001622300000000000000000000000003503200000000000000000000000001618600000000000000000000000003520300000000000000000000000001614900000000000000000000000003537500000000000000000000000001611200000000000000000000000003554800000000000000000000000001607500000000000000000000000003572200000000000000000000000001603800000000000000000000000003589700000000000000000000000001600100000000000000000000000003607300000000000000000000000001596400000000000000000000000003625000000000000000000000000001592700000000000000000000000003642900000000000000000000000001589000000000000000000000000003660800000000000000000000000001585400000000000000000000000003678800000000000000000000000001581700000000000000000000000003697000000000000000000000000001578100000000000000000000000003715300000000000000000000000001574500000000000000000000000003733700000000000000000000000001570900000000000000000000000003752200000000000000000000000001567200000000000000000000000003770800000000000000000000000001563600000000000000000000000003789500000000000000000000000001560000000000000000000000000003808300000000000000000000000001556400000000000000000000000003827300000000000000000000000001552900000000000000000000000003846400000000000000000000000001549300000000000000000000000003865600000000000000000000000001545700000000000000000000000003884900000000000000000000000001542200000000000000000000000003904400000000000000000000000001538600000000000000000000000003923900000000000000000000000001535100000000000000000000000003943600000000000000000000000001531600000000000000000000000003963500000000000000000000000001528000000000000000000000000003983400000000000000000000000001524500000000000000000000000004003500000000000000000000000001521000000000000000000000000004023700000000000000000000000001517500000000000000000000000004044000000000000000000000000001514000000000000000000000000004064500000000000000000000000001510500000000000000000000000004085100000000000000000000000001507100000000000000000000000004105800000000000000000000000001503600000000000000000000000004126700000000000000000000000001500100000000000000000000000004147700000000000000000000000001496700000000000000000000000004168900000000000000000000000001493200000000000000000000000004190200000000000000000000000001489800000000000000000000000004211600000000000000000000000001486400000000000000000000000004233200000000000000000000000001483000000000000000000000000004254900000000000000000000000001479500000000000000000000000004276700000000000000000000000001476100000000000000000000000004298700000000000000000000000001472700000000000000000000000004320900000000000000000000000001469400000000000000000000000004343200000000000000000000000001466000000000000000000000000004365700000000000000000000000001462600000000000000000000000004388300000000000000000000000001459200000000000000000000000004411000000000000000000000000001455900000000000000000000000004434000000000000000000000000001452500000000000000000000000004457100000000000000000000000001449200000000000000000000000004480300000000000000000000000001445900000000000000000000000004503700000000000000000000000001442500000000000000000000000004527300000000000000000000000001439200000000000000000000000004551000000000000000000000000001435900000000000000000000000004574900000000000000000000000001432600000000000000000000000004599000000000000000000000000001429300000000000000000000000004623200000000000000000000000001426000000000000000000000000004647600000000000000000000000001422700000000000000000000000004672200000000000000000000000001419500000000000000000000000004697000000000000000000000000001416200000000000000000000000004721900000000000000000000000001412900000000000000000000000004747100000000000000000000000001409700000000000000000000000004772400000000000000000000000001406400000000000000000000000004797900000000000000000000000001403200000000000000000,
    2579700000000000000000000000001880000000000000000000000000002591500000000000000000000000001875700000000000000000000000002603400000000000000000000000001871400000000000000000000000002615300000000000000000000000001867100000000000000000000000002627300000000000000000000000001862800000000000000000000000002639400000000000000000000000001858500000000000000000000000002651500000000000000000000000001854200000000000000000000000002663700000000000000000000000001849900000000000000000000000002676000000000000000000000000001845700000000000000000000000002688300000000000000000000000001841400000000000000000000000002700700000000000000000000000001837200000000000000000000000002713200000000000000000000000001833000000000000000000000000002725800000000000000000000000001828800000000000000000000000002738400000000000000000000000001824600000000000000000000000002751100000000000000000000000001820400000000000000000000000002763800000000000000000000000001816200000000000000000000000002776700000000000000000000000001812000000000000000000000000002789600000000000000000000000001807800000000000000000000000002802500000000000000000000000001803700000000000000000000000002815600000000000000000000000001799500000000000000000000000002828700000000000000000000000001795400000000000000000000000002841900000000000000000000000001791200000000000000000000000002855100000000000000000000000001787100000000000000000000000002868500000000000000000000000001783000000000000000000000000002881900000000000000000000000001778900000000000000000000000002895400000000000000000000000001774800000000000000000000000002908900000000000000000000000001770700000000000000000000000002922600000000000000000000000001766700000000000000000000000002936300000000000000000000000001762600000000000000000000000002950100000000000000000000000001758500000000000000000000000002964000000000000000000000000001754500000000000000000000000002977900000000000000000000000001750500000000000000000000000002991900000000000000000000000001746400000000000000000000000003006000000000000000000000000001742400000000000000000000000003020200000000000000000000000001738400000000000000000000000003034500000000000000000000000001734400000000000000000000000003048800000000000000000000000001730400000000000000000000000003063300000000000000000000000001726400000000000000000000000003077800000000000000000000000001722500000000000000000000000003092400000000000000000000000001718500000000000000000000000003107100000000000000000000000001714500000000000000000000000003121800000000000000000000000001710600000000000000000000000003136700000000000000000000000001706700000000000000000000000003151600000000000000000000000001702700000000000000000000000003166600000000000000000000000001698800000000000000000000000003181800000000000000000000000001694900000000000000000000000003196900000000000000000000000001691000000000000000000000000003212200000000000000000000000001687100000000000000000000000003227600000000000000000000000001683200000000000000000000000003243100000000000000000000000001679400000000000000000000000003258600000000000000000000000001675500000000000000000000000003274300000000000000000000000001671600000000000000000000000003290000000000000000000000000001667800000000000000000000000003305800000000000000000000000001664000000000000000000000000003321700000000000000000000000001660100000000000000000000000003337800000000000000000000000001656300000000000000000000000003353900000000000000000000000001652500000000000000000000000003370100000000000000000000000001648700000000000000000000000003386400000000000000000000000001644900000000000000000000000003402800000000000000000000000001641100000000000000000000000003419200000000000000000000000001637400000000000000000000000003435800000000000000000000000001633600000000000000000000000003452500000000000000000000000001629800000000000000000000000003469300000000000000000000000001626100000000000000000,
    1941900000000000000000000000002178600000000000000000000000001950300000000000000000000000002173600000000000000000000000001958700000000000000000000000002168600000000000000000000000001967200000000000000000000000002163600000000000000000000000001975700000000000000000000000002158600000000000000000000000001984300000000000000000000000002153700000000000000000000000001992900000000000000000000000002148700000000000000000000000002001500000000000000000000000002143800000000000000000000000002010300000000000000000000000002138900000000000000000000000002019000000000000000000000000002133900000000000000000000000002027800000000000000000000000002129000000000000000000000000002036600000000000000000000000002124100000000000000000000000002045500000000000000000000000002119200000000000000000000000002054500000000000000000000000002114400000000000000000000000002063400000000000000000000000002109500000000000000000000000002072500000000000000000000000002104600000000000000000000000002081600000000000000000000000002099800000000000000000000000002090700000000000000000000000002095000000000000000000000000002099900000000000000000000000002090100000000000000000000000002109100000000000000000000000002085300000000000000000000000002118400000000000000000000000002080500000000000000000000000002127700000000000000000000000002075800000000000000000000000002137100000000000000000000000002071000000000000000000000000002146500000000000000000000000002066200000000000000000000000002155900000000000000000000000002061500000000000000000000000002165500000000000000000000000002056700000000000000000000000002175000000000000000000000000002052000000000000000000000000002184700000000000000000000000002047300000000000000000000000002194300000000000000000000000002042600000000000000000000000002204100000000000000000000000002037900000000000000000000000002213900000000000000000000000002033200000000000000000000000002223700000000000000000000000002028500000000000000000000000002233600000000000000000000000002023800000000000000000000000002243500000000000000000000000002019200000000000000000000000002253500000000000000000000000002014500000000000000000000000002263600000000000000000000000002009900000000000000000000000002273700000000000000000000000002005300000000000000000000000002283800000000000000000000000002000600000000000000000000000002294000000000000000000000000001996000000000000000000000000002304300000000000000000000000001991500000000000000000000000002314600000000000000000000000001986900000000000000000000000002325000000000000000000000000001982300000000000000000000000002335400000000000000000000000001977700000000000000000000000002345900000000000000000000000001973200000000000000000000000002356400000000000000000000000001968600000000000000000000000002367000000000000000000000000001964100000000000000000000000002377700000000000000000000000001959600000000000000000000000002388400000000000000000000000001955100000000000000000000000002399200000000000000000000000001950600000000000000000000000002410000000000000000000000000001946100000000000000000000000002420900000000000000000000000001941600000000000000000000000002431800000000000000000000000001937200000000000000000000000002442800000000000000000000000001932700000000000000000000000002453900000000000000000000000001928300000000000000000000000002465000000000000000000000000001923800000000000000000000000002476200000000000000000000000001919400000000000000000000000002487500000000000000000000000001915000000000000000000000000002498800000000000000000000000001910600000000000000000000000002510100000000000000000000000001906200000000000000000000000002521600000000000000000000000001901800000000000000000000000002533100000000000000000000000001897400000000000000000000000002544600000000000000000000000001893100000000000000000000000002556200000000000000000000000001888700000000000000000000000002567900000000000000000000000001884400000000000000000,
    1487300000000000000000000000002524700000000000000000000000001493300000000000000000000000002518900000000000000000000000001499300000000000000000000000002513100000000000000000000000001505400000000000000000000000002507300000000000000000000000001511500000000000000000000000002501500000000000000000000000001517600000000000000000000000002495800000000000000000000000001523800000000000000000000000002490000000000000000000000000001529900000000000000000000000002484300000000000000000000000001536200000000000000000000000002478600000000000000000000000001542400000000000000000000000002472900000000000000000000000001548700000000000000000000000002467200000000000000000000000001555000000000000000000000000002461500000000000000000000000001561300000000000000000000000002455800000000000000000000000001567700000000000000000000000002450200000000000000000000000001574100000000000000000000000002444600000000000000000000000001580600000000000000000000000002438900000000000000000000000001587100000000000000000000000002433300000000000000000000000001593600000000000000000000000002427700000000000000000000000001600100000000000000000000000002422100000000000000000000000001606700000000000000000000000002416600000000000000000000000001613300000000000000000000000002411000000000000000000000000001620000000000000000000000000002405500000000000000000000000001626700000000000000000000000002399900000000000000000000000001633400000000000000000000000002394400000000000000000000000001640200000000000000000000000002388900000000000000000000000001647000000000000000000000000002383400000000000000000000000001653800000000000000000000000002377900000000000000000000000001660700000000000000000000000002372400000000000000000000000001667600000000000000000000000002367000000000000000000000000001674500000000000000000000000002361500000000000000000000000001681500000000000000000000000002356100000000000000000000000001688500000000000000000000000002350700000000000000000000000001695600000000000000000000000002345300000000000000000000000001702600000000000000000000000002339900000000000000000000000001709800000000000000000000000002334500000000000000000000000001716900000000000000000000000002329100000000000000000000000001724100000000000000000000000002323800000000000000000000000001731400000000000000000000000002318400000000000000000000000001738600000000000000000000000002313100000000000000000000000001746000000000000000000000000002307800000000000000000000000001753300000000000000000000000002302500000000000000000000000001760700000000000000000000000002297200000000000000000000000001768100000000000000000000000002291900000000000000000000000001775600000000000000000000000002286600000000000000000000000001783100000000000000000000000002281300000000000000000000000001790700000000000000000000000002276100000000000000000000000001798300000000000000000000000002270900000000000000000000000001805900000000000000000000000002265600000000000000000000000001813600000000000000000000000002260400000000000000000000000001821300000000000000000000000002255200000000000000000000000001829000000000000000000000000002250000000000000000000000000001836800000000000000000000000002244900000000000000000000000001844600000000000000000000000002239700000000000000000000000001852500000000000000000000000002234500000000000000000000000001860400000000000000000000000002229400000000000000000000000001868400000000000000000000000002224300000000000000000000000001876400000000000000000000000002219100000000000000000000000001884400000000000000000000000002214000000000000000000000000001892500000000000000000000000002208900000000000000000000000001900600000000000000000000000002203900000000000000000000000001908800000000000000000000000002198800000000000000000000000001917000000000000000000000000002193700000000000000000000000001925300000000000000000000000002188700000000000000000000000001933600000000000000000000000002183700000000000000000,
    1162700000000000000000000000002925700000000000000000000000001166900000000000000000000000002918900000000000000000000000001171200000000000000000000000002912200000000000000000000000001175600000000000000000000000002905500000000000000000000000001179900000000000000000000000002898800000000000000000000000001184300000000000000000000000002892200000000000000000000000001188700000000000000000000000002885500000000000000000000000001193100000000000000000000000002878900000000000000000000000001197500000000000000000000000002872300000000000000000000000001202000000000000000000000000002865600000000000000000000000001206400000000000000000000000002859100000000000000000000000001210900000000000000000000000002852500000000000000000000000001215500000000000000000000000002845900000000000000000000000001220000000000000000000000000002839400000000000000000000000001224600000000000000000000000002832800000000000000000000000001229200000000000000000000000002826300000000000000000000000001233800000000000000000000000002819800000000000000000000000001238500000000000000000000000002813300000000000000000000000001243200000000000000000000000002806900000000000000000000000001247900000000000000000000000002800400000000000000000000000001252600000000000000000000000002794000000000000000000000000001257400000000000000000000000002787500000000000000000000000001262100000000000000000000000002781100000000000000000000000001266900000000000000000000000002774700000000000000000000000001271800000000000000000000000002768300000000000000000000000001276600000000000000000000000002762000000000000000000000000001281500000000000000000000000002755600000000000000000000000001286400000000000000000000000002749300000000000000000000000001291300000000000000000000000002742900000000000000000000000001296300000000000000000000000002736600000000000000000000000001301300000000000000000000000002730300000000000000000000000001306300000000000000000000000002724100000000000000000000000001311300000000000000000000000002717800000000000000000000000001316400000000000000000000000002711500000000000000000000000001321500000000000000000000000002705300000000000000000000000001326600000000000000000000000002699100000000000000000000000001331700000000000000000000000002692900000000000000000000000001336900000000000000000000000002686700000000000000000000000001342100000000000000000000000002680500000000000000000000000001347300000000000000000000000002674300000000000000000000000001352600000000000000000000000002668200000000000000000000000001357900000000000000000000000002662000000000000000000000000001363200000000000000000000000002655900000000000000000000000001368500000000000000000000000002649800000000000000000000000001373900000000000000000000000002643700000000000000000000000001379300000000000000000000000002637600000000000000000000000001384700000000000000000000000002631500000000000000000000000001390100000000000000000000000002625500000000000000000000000001395600000000000000000000000002619400000000000000000000000001401100000000000000000000000002613400000000000000000000000001406700000000000000000000000002607400000000000000000000000001412200000000000000000000000002601400000000000000000000000001417800000000000000000000000002595400000000000000000000000001423500000000000000000000000002589500000000000000000000000001429100000000000000000000000002583500000000000000000000000001434800000000000000000000000002577600000000000000000000000001440500000000000000000000000002571600000000000000000000000001446300000000000000000000000002565700000000000000000000000001452000000000000000000000000002559800000000000000000000000001457800000000000000000000000002553900000000000000000000000001463700000000000000000000000002548000000000000000000000000001469500000000000000000000000002542200000000000000000000000001475400000000000000000000000002536300000000000000000000000001481400000000000000000000000002530500000000000000000,
    931740000000000000000000000003390400000000000000000000000000934770000000000000000000000003382600000000000000000000000000937820000000000000000000000003374800000000000000000000000000940880000000000000000000000003367000000000000000000000000000943960000000000000000000000003359300000000000000000000000000947050000000000000000000000003351500000000000000000000000000950170000000000000000000000003343800000000000000000000000000953300000000000000000000000003336100000000000000000000000000956440000000000000000000000003328500000000000000000000000000959610000000000000000000000003320800000000000000000000000000962790000000000000000000000003313200000000000000000000000000965990000000000000000000000003305500000000000000000000000000969200000000000000000000000003297900000000000000000000000000972440000000000000000000000003290400000000000000000000000000975690000000000000000000000003282800000000000000000000000000978960000000000000000000000003275200000000000000000000000000982240000000000000000000000003267700000000000000000000000000985540000000000000000000000003260200000000000000000000000000988870000000000000000000000003252700000000000000000000000000992210000000000000000000000003245200000000000000000000000000995560000000000000000000000003237700000000000000000000000000998940000000000000000000000003230300000000000000000000000001002300000000000000000000000003222800000000000000000000000001005700000000000000000000000003215400000000000000000000000001009200000000000000000000000003208000000000000000000000000001012600000000000000000000000003200700000000000000000000000001016100000000000000000000000003193300000000000000000000000001019600000000000000000000000003185900000000000000000000000001023100000000000000000000000003178600000000000000000000000001026600000000000000000000000003171300000000000000000000000001030200000000000000000000000003164000000000000000000000000001033700000000000000000000000003156700000000000000000000000001037300000000000000000000000003149500000000000000000000000001040900000000000000000000000003142200000000000000000000000001044500000000000000000000000003135000000000000000000000000001048200000000000000000000000003127800000000000000000000000001051800000000000000000000000003120600000000000000000000000001055500000000000000000000000003113400000000000000000000000001059200000000000000000000000003106200000000000000000000000001062900000000000000000000000003099100000000000000000000000001066700000000000000000000000003092000000000000000000000000001070400000000000000000000000003084800000000000000000000000001074200000000000000000000000003077700000000000000000000000001078000000000000000000000000003070700000000000000000000000001081800000000000000000000000003063600000000000000000000000001085700000000000000000000000003056600000000000000000000000001089500000000000000000000000003049500000000000000000000000001093400000000000000000000000003042500000000000000000000000001097300000000000000000000000003035500000000000000000000000001101200000000000000000000000003028500000000000000000000000001105200000000000000000000000003021600000000000000000000000001109100000000000000000000000003014600000000000000000000000001113100000000000000000000000003007700000000000000000000000001117100000000000000000000000003000700000000000000000000000001121200000000000000000000000002993800000000000000000000000001125200000000000000000000000002987000000000000000000000000001129300000000000000000000000002980100000000000000000000000001133400000000000000000000000002973200000000000000000000000001137500000000000000000000000002966400000000000000000000000001141600000000000000000000000002959600000000000000000000000001145800000000000000000000000002952800000000000000000000000001150000000000000000000000000002946000000000000000000000000001154200000000000000000000000002939200000000000000000000000001158400000000000000000000000002932400000000000000000,
    768540000000000000000000000003928900000000000000000000000000770670000000000000000000000003919800000000000000000000000000772820000000000000000000000003910800000000000000000000000000774980000000000000000000000003901800000000000000000000000000777150000000000000000000000003892800000000000000000000000000779330000000000000000000000003883900000000000000000000000000781520000000000000000000000003875000000000000000000000000000783730000000000000000000000003866000000000000000000000000000785950000000000000000000000003857100000000000000000000000000788180000000000000000000000003848300000000000000000000000000790420000000000000000000000003839400000000000000000000000000792680000000000000000000000003830600000000000000000000000000794940000000000000000000000003821800000000000000000000000000797220000000000000000000000003813000000000000000000000000000799520000000000000000000000003804200000000000000000000000000801820000000000000000000000003795500000000000000000000000000804140000000000000000000000003786700000000000000000000000000806470000000000000000000000003778000000000000000000000000000808810000000000000000000000003769300000000000000000000000000811170000000000000000000000003760600000000000000000000000000813540000000000000000000000003752000000000000000000000000000815920000000000000000000000003743400000000000000000000000000818320000000000000000000000003734700000000000000000000000000820730000000000000000000000003726200000000000000000000000000823150000000000000000000000003717600000000000000000000000000825580000000000000000000000003709000000000000000000000000000828030000000000000000000000003700500000000000000000000000000830490000000000000000000000003692000000000000000000000000000832970000000000000000000000003683500000000000000000000000000835460000000000000000000000003675000000000000000000000000000837960000000000000000000000003666600000000000000000000000000840480000000000000000000000003658100000000000000000000000000843010000000000000000000000003649700000000000000000000000000845560000000000000000000000003641300000000000000000000000000848110000000000000000000000003632900000000000000000000000000850690000000000000000000000003624600000000000000000000000000853270000000000000000000000003616200000000000000000000000000855870000000000000000000000003607900000000000000000000000000858490000000000000000000000003599600000000000000000000000000861120000000000000000000000003591300000000000000000000000000863760000000000000000000000003583100000000000000000000000000866420000000000000000000000003574800000000000000000000000000869090000000000000000000000003566600000000000000000000000000871780000000000000000000000003558400000000000000000000000000874480000000000000000000000003550200000000000000000000000000877200000000000000000000000003542000000000000000000000000000879930000000000000000000000003533900000000000000000000000000882680000000000000000000000003525800000000000000000000000000885440000000000000000000000003517600000000000000000000000000888220000000000000000000000003509600000000000000000000000000891010000000000000000000000003501500000000000000000000000000893820000000000000000000000003493400000000000000000000000000896640000000000000000000000003485400000000000000000000000000899480000000000000000000000003477400000000000000000000000000902330000000000000000000000003469400000000000000000000000000905200000000000000000000000003461400000000000000000000000000908090000000000000000000000003453400000000000000000000000000910990000000000000000000000003445500000000000000000000000000913900000000000000000000000003437600000000000000000000000000916840000000000000000000000003429600000000000000000000000000919790000000000000000000000003421800000000000000000000000000922750000000000000000000000003413900000000000000000000000000925730000000000000000000000003406000000000000000000000000000928730000000000000000000000003398200000000000000000,
    653710000000000000000000000004552900000000000000000000000000655210000000000000000000000004542400000000000000000000000000656720000000000000000000000004532000000000000000000000000000658240000000000000000000000004521600000000000000000000000000659770000000000000000000000004511200000000000000000000000000661300000000000000000000000004500800000000000000000000000000662840000000000000000000000004490400000000000000000000000000664390000000000000000000000004480100000000000000000000000000665950000000000000000000000004469800000000000000000000000000667520000000000000000000000004459500000000000000000000000000669100000000000000000000000004449200000000000000000000000000670690000000000000000000000004439000000000000000000000000000672280000000000000000000000004428800000000000000000000000000673880000000000000000000000004418600000000000000000000000000675500000000000000000000000004408400000000000000000000000000677120000000000000000000000004398300000000000000000000000000678750000000000000000000000004388200000000000000000000000000680390000000000000000000000004378100000000000000000000000000682030000000000000000000000004368000000000000000000000000000683690000000000000000000000004358000000000000000000000000000685360000000000000000000000004347900000000000000000000000000687030000000000000000000000004337900000000000000000000000000688720000000000000000000000004328000000000000000000000000000690410000000000000000000000004318000000000000000000000000000692120000000000000000000000004308100000000000000000000000000693830000000000000000000000004298100000000000000000000000000695550000000000000000000000004288300000000000000000000000000697280000000000000000000000004278400000000000000000000000000699020000000000000000000000004268600000000000000000000000000700770000000000000000000000004258700000000000000000000000000702530000000000000000000000004248900000000000000000000000000704300000000000000000000000004239200000000000000000000000000706080000000000000000000000004229400000000000000000000000000707870000000000000000000000004219700000000000000000000000000709670000000000000000000000004210000000000000000000000000000711480000000000000000000000004200300000000000000000000000000713300000000000000000000000004190600000000000000000000000000715130000000000000000000000004181000000000000000000000000000716970000000000000000000000004171400000000000000000000000000718820000000000000000000000004161800000000000000000000000000720680000000000000000000000004152200000000000000000000000000722550000000000000000000000004142600000000000000000000000000724430000000000000000000000004133100000000000000000000000000726320000000000000000000000004123600000000000000000000000000728220000000000000000000000004114100000000000000000000000000730140000000000000000000000004104600000000000000000000000000732060000000000000000000000004095200000000000000000000000000733990000000000000000000000004085800000000000000000000000000735940000000000000000000000004076400000000000000000000000000737890000000000000000000000004067000000000000000000000000000739860000000000000000000000004057600000000000000000000000000741830000000000000000000000004048300000000000000000000000000743820000000000000000000000004039000000000000000000000000000745820000000000000000000000004029700000000000000000000000000747830000000000000000000000004020400000000000000000000000000749850000000000000000000000004011200000000000000000000000000751880000000000000000000000004001900000000000000000000000000753920000000000000000000000003992700000000000000000000000000755970000000000000000000000003983600000000000000000000000000758040000000000000000000000003974400000000000000000000000000760120000000000000000000000003965200000000000000000000000000762200000000000000000000000003956100000000000000000000000000764300000000000000000000000003947000000000000000000000000000766410000000000000000000000003937900000000000000000,
    572720000000000000000000000005276100000000000000000000000000573780000000000000000000000005263900000000000000000000000000574850000000000000000000000005251800000000000000000000000000575930000000000000000000000005239700000000000000000000000000577010000000000000000000000005227700000000000000000000000000578090000000000000000000000005215700000000000000000000000000579190000000000000000000000005203700000000000000000000000000580290000000000000000000000005191700000000000000000000000000581390000000000000000000000005179700000000000000000000000000582500000000000000000000000005167800000000000000000000000000583620000000000000000000000005155900000000000000000000000000584740000000000000000000000005144100000000000000000000000000585870000000000000000000000005132200000000000000000000000000587000000000000000000000000005120400000000000000000000000000588140000000000000000000000005108700000000000000000000000000589290000000000000000000000005096900000000000000000000000000590440000000000000000000000005085200000000000000000000000000591600000000000000000000000005073500000000000000000000000000592760000000000000000000000005061800000000000000000000000000593930000000000000000000000005050200000000000000000000000000595110000000000000000000000005038500000000000000000000000000596290000000000000000000000005026900000000000000000000000000597480000000000000000000000005015400000000000000000000000000598680000000000000000000000005003800000000000000000000000000599880000000000000000000000004992300000000000000000000000000601090000000000000000000000004980800000000000000000000000000602300000000000000000000000004969400000000000000000000000000603530000000000000000000000004957900000000000000000000000000604760000000000000000000000004946500000000000000000000000000605990000000000000000000000004935200000000000000000000000000607230000000000000000000000004923800000000000000000000000000608480000000000000000000000004912500000000000000000000000000609740000000000000000000000004901200000000000000000000000000611000000000000000000000000004889900000000000000000000000000612270000000000000000000000004878700000000000000000000000000613540000000000000000000000004867400000000000000000000000000614820000000000000000000000004856200000000000000000000000000616110000000000000000000000004845100000000000000000000000000617410000000000000000000000004833900000000000000000000000000618710000000000000000000000004822800000000000000000000000000620020000000000000000000000004811700000000000000000000000000621340000000000000000000000004800600000000000000000000000000622670000000000000000000000004789600000000000000000000000000624000000000000000000000000004778600000000000000000000000000625340000000000000000000000004767600000000000000000000000000626680000000000000000000000004756600000000000000000000000000628040000000000000000000000004745700000000000000000000000000629400000000000000000000000004734700000000000000000000000000630770000000000000000000000004723800000000000000000000000000632140000000000000000000000004713000000000000000000000000000633530000000000000000000000004702100000000000000000000000000634920000000000000000000000004691300000000000000000000000000636320000000000000000000000004680500000000000000000000000000637720000000000000000000000004669700000000000000000000000000639140000000000000000000000004659000000000000000000000000000640560000000000000000000000004648300000000000000000000000000641990000000000000000000000004637600000000000000000000000000643430000000000000000000000004626900000000000000000000000000644870000000000000000000000004616300000000000000000000000000646320000000000000000000000004605700000000000000000000000000647790000000000000000000000004595100000000000000000000000000649250000000000000000000000004584500000000000000000000000000650730000000000000000000000004573900000000000000000000000000652220000000000000000000000004563400000000000000000,
    514820000000000000000000000006114100000000000000000000000000515590000000000000000000000006100000000000000000000000000000516360000000000000000000000006086000000000000000000000000000517140000000000000000000000006072000000000000000000000000000517920000000000000000000000006058000000000000000000000000000518700000000000000000000000006044100000000000000000000000000519490000000000000000000000006030200000000000000000000000000520280000000000000000000000006016300000000000000000000000000521080000000000000000000000006002500000000000000000000000000521880000000000000000000000005988700000000000000000000000000522680000000000000000000000005974900000000000000000000000000523490000000000000000000000005961100000000000000000000000000524300000000000000000000000005947400000000000000000000000000525120000000000000000000000005933700000000000000000000000000525940000000000000000000000005920100000000000000000000000000526760000000000000000000000005906500000000000000000000000000527590000000000000000000000005892900000000000000000000000000528420000000000000000000000005879300000000000000000000000000529260000000000000000000000005865800000000000000000000000000530100000000000000000000000005852300000000000000000000000000530950000000000000000000000005838800000000000000000000000000531790000000000000000000000005825400000000000000000000000000532650000000000000000000000005812000000000000000000000000000533510000000000000000000000005798600000000000000000000000000534370000000000000000000000005785300000000000000000000000000535230000000000000000000000005772000000000000000000000000000536100000000000000000000000005758700000000000000000000000000536980000000000000000000000005745400000000000000000000000000537860000000000000000000000005732200000000000000000000000000538740000000000000000000000005719000000000000000000000000000539630000000000000000000000005705900000000000000000000000000540520000000000000000000000005692800000000000000000000000000541420000000000000000000000005679700000000000000000000000000542320000000000000000000000005666600000000000000000000000000543230000000000000000000000005653500000000000000000000000000544140000000000000000000000005640500000000000000000000000000545060000000000000000000000005627600000000000000000000000000545980000000000000000000000005614600000000000000000000000000546900000000000000000000000005601700000000000000000000000000547830000000000000000000000005588800000000000000000000000000548770000000000000000000000005576000000000000000000000000000549710000000000000000000000005563100000000000000000000000000550650000000000000000000000005550300000000000000000000000000551600000000000000000000000005537600000000000000000000000000552560000000000000000000000005524800000000000000000000000000553520000000000000000000000005512100000000000000000000000000554480000000000000000000000005499400000000000000000000000000555450000000000000000000000005486800000000000000000000000000556420000000000000000000000005474100000000000000000000000000557400000000000000000000000005461600000000000000000000000000558390000000000000000000000005449000000000000000000000000000559380000000000000000000000005436500000000000000000000000000560370000000000000000000000005423900000000000000000000000000561370000000000000000000000005411500000000000000000000000000562370000000000000000000000005399000000000000000000000000000563380000000000000000000000005386600000000000000000000000000564400000000000000000000000005374200000000000000000000000000565420000000000000000000000005361800000000000000000000000000566450000000000000000000000005349500000000000000000000000000567480000000000000000000000005337200000000000000000000000000568510000000000000000000000005324900000000000000000000000000569560000000000000000000000005312700000000000000000000000000570600000000000000000000000005300400000000000000000000000000571660000000000000000000000005288200000000000000000,
    472380000000000000000000000007085200000000000000000000000000472960000000000000000000000007068900000000000000000000000000473530000000000000000000000007052700000000000000000000000000474110000000000000000000000007036400000000000000000000000000474690000000000000000000000007020200000000000000000000000000475270000000000000000000000007004100000000000000000000000000475860000000000000000000000006988000000000000000000000000000476450000000000000000000000006971900000000000000000000000000477040000000000000000000000006955900000000000000000000000000477630000000000000000000000006939900000000000000000000000000478230000000000000000000000006923900000000000000000000000000478830000000000000000000000006908000000000000000000000000000479430000000000000000000000006892100000000000000000000000000480030000000000000000000000006876200000000000000000000000000480640000000000000000000000006860400000000000000000000000000481250000000000000000000000006844600000000000000000000000000481860000000000000000000000006828900000000000000000000000000482480000000000000000000000006813200000000000000000000000000483090000000000000000000000006797500000000000000000000000000483710000000000000000000000006781800000000000000000000000000484340000000000000000000000006766200000000000000000000000000484960000000000000000000000006750700000000000000000000000000485590000000000000000000000006735100000000000000000000000000486220000000000000000000000006719600000000000000000000000000486860000000000000000000000006704200000000000000000000000000487500000000000000000000000006688800000000000000000000000000488140000000000000000000000006673400000000000000000000000000488780000000000000000000000006658000000000000000000000000000489430000000000000000000000006642700000000000000000000000000490070000000000000000000000006627400000000000000000000000000490730000000000000000000000006612200000000000000000000000000491380000000000000000000000006597000000000000000000000000000492040000000000000000000000006581800000000000000000000000000492700000000000000000000000006566600000000000000000000000000493370000000000000000000000006551500000000000000000000000000494030000000000000000000000006536500000000000000000000000000494700000000000000000000000006521400000000000000000000000000495380000000000000000000000006506400000000000000000000000000496050000000000000000000000006491400000000000000000000000000496730000000000000000000000006476500000000000000000000000000497420000000000000000000000006461600000000000000000000000000498100000000000000000000000006446700000000000000000000000000498790000000000000000000000006431900000000000000000000000000499490000000000000000000000006417100000000000000000000000000500180000000000000000000000006402300000000000000000000000000500880000000000000000000000006387600000000000000000000000000501580000000000000000000000006372900000000000000000000000000502290000000000000000000000006358300000000000000000000000000503000000000000000000000000006343600000000000000000000000000503710000000000000000000000006329000000000000000000000000000504430000000000000000000000006314500000000000000000000000000505150000000000000000000000006299900000000000000000000000000505870000000000000000000000006285500000000000000000000000000506590000000000000000000000006271000000000000000000000000000507320000000000000000000000006256600000000000000000000000000508060000000000000000000000006242200000000000000000000000000508790000000000000000000000006227800000000000000000000000000509530000000000000000000000006213500000000000000000000000000510280000000000000000000000006199200000000000000000000000000511030000000000000000000000006184900000000000000000000000000511780000000000000000000000006170700000000000000000000000000512530000000000000000000000006156500000000000000000000000000513290000000000000000000000006142300000000000000000000000000514050000000000000000000000006128200000000000000000,
    440240000000000000000000000008210600000000000000000000000000440680000000000000000000000008191700000000000000000000000000441130000000000000000000000008172900000000000000000000000000441570000000000000000000000008154100000000000000000000000000442020000000000000000000000008135300000000000000000000000000442470000000000000000000000008116600000000000000000000000000442920000000000000000000000008097900000000000000000000000000443370000000000000000000000008079300000000000000000000000000443820000000000000000000000008060700000000000000000000000000444280000000000000000000000008042100000000000000000000000000444740000000000000000000000008023600000000000000000000000000445200000000000000000000000008005200000000000000000000000000445660000000000000000000000007986800000000000000000000000000446120000000000000000000000007968400000000000000000000000000446590000000000000000000000007950100000000000000000000000000447050000000000000000000000007931800000000000000000000000000447520000000000000000000000007913500000000000000000000000000447990000000000000000000000007895300000000000000000000000000448460000000000000000000000007877200000000000000000000000000448940000000000000000000000007859000000000000000000000000000449410000000000000000000000007840900000000000000000000000000449890000000000000000000000007822900000000000000000000000000450370000000000000000000000007804900000000000000000000000000450850000000000000000000000007787000000000000000000000000000451330000000000000000000000007769000000000000000000000000000451820000000000000000000000007751200000000000000000000000000452310000000000000000000000007733300000000000000000000000000452800000000000000000000000007715500000000000000000000000000453290000000000000000000000007697800000000000000000000000000453780000000000000000000000007680100000000000000000000000000454270000000000000000000000007662400000000000000000000000000454770000000000000000000000007644800000000000000000000000000455270000000000000000000000007627200000000000000000000000000455770000000000000000000000007609600000000000000000000000000456280000000000000000000000007592100000000000000000000000000456780000000000000000000000007574700000000000000000000000000457290000000000000000000000007557200000000000000000000000000457800000000000000000000000007539900000000000000000000000000458310000000000000000000000007522500000000000000000000000000458820000000000000000000000007505200000000000000000000000000459340000000000000000000000007487900000000000000000000000000459860000000000000000000000007470700000000000000000000000000460380000000000000000000000007453500000000000000000000000000460900000000000000000000000007436400000000000000000000000000461420000000000000000000000007419300000000000000000000000000461950000000000000000000000007402200000000000000000000000000462480000000000000000000000007385200000000000000000000000000463010000000000000000000000007368200000000000000000000000000463540000000000000000000000007351200000000000000000000000000464080000000000000000000000007334300000000000000000000000000464610000000000000000000000007317400000000000000000000000000465150000000000000000000000007300600000000000000000000000000465700000000000000000000000007283800000000000000000000000000466240000000000000000000000007267000000000000000000000000000466790000000000000000000000007250300000000000000000000000000467340000000000000000000000007233600000000000000000000000000467890000000000000000000000007217000000000000000000000000000468440000000000000000000000007200400000000000000000000000000469000000000000000000000000007183800000000000000000000000000469550000000000000000000000007167300000000000000000000000000470120000000000000000000000007150800000000000000000000000000470680000000000000000000000007134400000000000000000000000000471240000000000000000000000007117900000000000000000000000000471810000000000000000000000007101600000000000000000,
    415040000000000000000000000009514700000000000000000000000000415390000000000000000000000009492800000000000000000000000000415740000000000000000000000009471000000000000000000000000000416100000000000000000000000009449200000000000000000000000000416460000000000000000000000009427500000000000000000000000000416810000000000000000000000009405800000000000000000000000000417170000000000000000000000009384100000000000000000000000000417530000000000000000000000009362500000000000000000000000000417890000000000000000000000009341000000000000000000000000000418250000000000000000000000009319500000000000000000000000000418620000000000000000000000009298100000000000000000000000000418980000000000000000000000009276700000000000000000000000000419350000000000000000000000009255300000000000000000000000000419710000000000000000000000009234000000000000000000000000000420080000000000000000000000009212800000000000000000000000000420450000000000000000000000009191600000000000000000000000000420820000000000000000000000009170500000000000000000000000000421190000000000000000000000009149400000000000000000000000000421570000000000000000000000009128300000000000000000000000000421940000000000000000000000009107300000000000000000000000000422320000000000000000000000009086400000000000000000000000000422690000000000000000000000009065500000000000000000000000000423070000000000000000000000009044600000000000000000000000000423450000000000000000000000009023800000000000000000000000000423830000000000000000000000009003000000000000000000000000000424210000000000000000000000008982300000000000000000000000000424600000000000000000000000008961600000000000000000000000000424980000000000000000000000008941000000000000000000000000000425370000000000000000000000008920500000000000000000000000000425760000000000000000000000008899900000000000000000000000000426140000000000000000000000008879500000000000000000000000000426540000000000000000000000008859000000000000000000000000000426930000000000000000000000008838600000000000000000000000000427320000000000000000000000008818300000000000000000000000000427710000000000000000000000008798000000000000000000000000000428110000000000000000000000008777800000000000000000000000000428510000000000000000000000008757600000000000000000000000000428910000000000000000000000008737400000000000000000000000000429310000000000000000000000008717300000000000000000000000000429710000000000000000000000008697300000000000000000000000000430110000000000000000000000008677300000000000000000000000000430520000000000000000000000008657300000000000000000000000000430920000000000000000000000008637400000000000000000000000000431330000000000000000000000008617500000000000000000000000000431740000000000000000000000008597700000000000000000000000000432150000000000000000000000008577900000000000000000000000000432560000000000000000000000008558200000000000000000000000000432970000000000000000000000008538500000000000000000000000000433390000000000000000000000008518800000000000000000000000000433810000000000000000000000008499200000000000000000000000000434220000000000000000000000008479700000000000000000000000000434640000000000000000000000008460200000000000000000000000000435060000000000000000000000008440700000000000000000000000000435490000000000000000000000008421300000000000000000000000000435910000000000000000000000008401900000000000000000000000000436340000000000000000000000008382600000000000000000000000000436760000000000000000000000008363300000000000000000000000000437190000000000000000000000008344100000000000000000000000000437620000000000000000000000008324900000000000000000000000000438060000000000000000000000008305700000000000000000000000000438490000000000000000000000008286600000000000000000000000000438930000000000000000000000008267500000000000000000000000000439360000000000000000000000008248500000000000000000000000000439800000000000000000000000008229500000000000000000,
    394690000000000000000000000011026000000000000000000000000000394980000000000000000000000011001000000000000000000000000000395270000000000000000000000010975000000000000000000000000000395560000000000000000000000010950000000000000000000000000000395850000000000000000000000010925000000000000000000000000000396140000000000000000000000010900000000000000000000000000000396430000000000000000000000010875000000000000000000000000000396720000000000000000000000010850000000000000000000000000000397020000000000000000000000010825000000000000000000000000000397310000000000000000000000010800000000000000000000000000000397610000000000000000000000010775000000000000000000000000000397900000000000000000000000010750000000000000000000000000000398200000000000000000000000010725000000000000000000000000000398500000000000000000000000010701000000000000000000000000000398800000000000000000000000010676000000000000000000000000000399100000000000000000000000010652000000000000000000000000000399400000000000000000000000010627000000000000000000000000000399700000000000000000000000010603000000000000000000000000000400010000000000000000000000010578000000000000000000000000000400310000000000000000000000010554000000000000000000000000000400620000000000000000000000010530000000000000000000000000000400920000000000000000000000010505000000000000000000000000000401230000000000000000000000010481000000000000000000000000000401540000000000000000000000010457000000000000000000000000000401850000000000000000000000010433000000000000000000000000000402160000000000000000000000010409000000000000000000000000000402470000000000000000000000010385000000000000000000000000000402780000000000000000000000010361000000000000000000000000000403090000000000000000000000010337000000000000000000000000000403400000000000000000000000010314000000000000000000000000000403720000000000000000000000010290000000000000000000000000000404030000000000000000000000010266000000000000000000000000000404350000000000000000000000010243000000000000000000000000000404670000000000000000000000010219000000000000000000000000000404990000000000000000000000010195000000000000000000000000000405310000000000000000000000010172000000000000000000000000000405630000000000000000000000010149000000000000000000000000000405950000000000000000000000010125000000000000000000000000000406270000000000000000000000010102000000000000000000000000000406600000000000000000000000010079000000000000000000000000000406920000000000000000000000010056000000000000000000000000000407250000000000000000000000010032000000000000000000000000000407570000000000000000000000010009000000000000000000000000000407900000000000000000000000009986300000000000000000000000000408230000000000000000000000009963300000000000000000000000000408560000000000000000000000009940400000000000000000000000000408890000000000000000000000009917500000000000000000000000000409220000000000000000000000009894700000000000000000000000000409560000000000000000000000009871900000000000000000000000000409890000000000000000000000009849200000000000000000000000000410230000000000000000000000009826600000000000000000000000000410560000000000000000000000009803900000000000000000000000000410900000000000000000000000009781400000000000000000000000000411240000000000000000000000009758900000000000000000000000000411580000000000000000000000009736400000000000000000000000000411920000000000000000000000009714000000000000000000000000000412260000000000000000000000009691700000000000000000000000000412610000000000000000000000009669400000000000000000000000000412950000000000000000000000009647100000000000000000000000000413290000000000000000000000009624900000000000000000000000000413640000000000000000000000009602800000000000000000000000000413990000000000000000000000009580700000000000000000000000000414340000000000000000000000009558700000000000000000000000000414690000000000000000000000009536700000000000000000,
    377960000000000000000000000012777000000000000000000000000000378190000000000000000000000012748000000000000000000000000000378430000000000000000000000012719000000000000000000000000000378670000000000000000000000012689000000000000000000000000000378910000000000000000000000012660000000000000000000000000000379150000000000000000000000012631000000000000000000000000000379390000000000000000000000012602000000000000000000000000000379640000000000000000000000012573000000000000000000000000000379880000000000000000000000012544000000000000000000000000000380120000000000000000000000012515000000000000000000000000000380370000000000000000000000012486000000000000000000000000000380610000000000000000000000012458000000000000000000000000000380860000000000000000000000012429000000000000000000000000000381100000000000000000000000012400000000000000000000000000000381350000000000000000000000012372000000000000000000000000000381600000000000000000000000012343000000000000000000000000000381850000000000000000000000012315000000000000000000000000000382100000000000000000000000012287000000000000000000000000000382350000000000000000000000012258000000000000000000000000000382600000000000000000000000012230000000000000000000000000000382850000000000000000000000012202000000000000000000000000000383100000000000000000000000012174000000000000000000000000000383350000000000000000000000012146000000000000000000000000000383610000000000000000000000012118000000000000000000000000000383860000000000000000000000012090000000000000000000000000000384120000000000000000000000012062000000000000000000000000000384370000000000000000000000012035000000000000000000000000000384630000000000000000000000012007000000000000000000000000000384890000000000000000000000011979000000000000000000000000000385150000000000000000000000011952000000000000000000000000000385400000000000000000000000011924000000000000000000000000000385660000000000000000000000011897000000000000000000000000000385930000000000000000000000011869000000000000000000000000000386190000000000000000000000011842000000000000000000000000000386450000000000000000000000011815000000000000000000000000000386710000000000000000000000011788000000000000000000000000000386980000000000000000000000011761000000000000000000000000000387240000000000000000000000011733000000000000000000000000000387510000000000000000000000011706000000000000000000000000000387770000000000000000000000011680000000000000000000000000000388040000000000000000000000011653000000000000000000000000000388310000000000000000000000011626000000000000000000000000000388570000000000000000000000011599000000000000000000000000000388840000000000000000000000011572000000000000000000000000000389110000000000000000000000011546000000000000000000000000000389390000000000000000000000011519000000000000000000000000000389660000000000000000000000011493000000000000000000000000000389930000000000000000000000011466000000000000000000000000000390200000000000000000000000011440000000000000000000000000000390480000000000000000000000011414000000000000000000000000000390750000000000000000000000011387000000000000000000000000000391030000000000000000000000011361000000000000000000000000000391300000000000000000000000011335000000000000000000000000000391580000000000000000000000011309000000000000000000000000000391860000000000000000000000011283000000000000000000000000000392140000000000000000000000011257000000000000000000000000000392420000000000000000000000011231000000000000000000000000000392700000000000000000000000011205000000000000000000000000000392980000000000000000000000011179000000000000000000000000000393270000000000000000000000011154000000000000000000000000000393550000000000000000000000011128000000000000000000000000000393830000000000000000000000011102000000000000000000000000000394120000000000000000000000011077000000000000000000000000000394400000000000000000000000011051000000000000000000,
    364140000000000000000000000014807000000000000000000000000000364340000000000000000000000014773000000000000000000000000000364540000000000000000000000014739000000000000000000000000000364730000000000000000000000014705000000000000000000000000000364930000000000000000000000014671000000000000000000000000000365130000000000000000000000014637000000000000000000000000000365330000000000000000000000014604000000000000000000000000000365520000000000000000000000014570000000000000000000000000000365720000000000000000000000014536000000000000000000000000000365920000000000000000000000014503000000000000000000000000000366130000000000000000000000014470000000000000000000000000000366330000000000000000000000014436000000000000000000000000000366530000000000000000000000014403000000000000000000000000000366730000000000000000000000014370000000000000000000000000000366940000000000000000000000014337000000000000000000000000000367140000000000000000000000014304000000000000000000000000000367350000000000000000000000014271000000000000000000000000000367550000000000000000000000014238000000000000000000000000000367760000000000000000000000014205000000000000000000000000000367960000000000000000000000014173000000000000000000000000000368170000000000000000000000014140000000000000000000000000000368380000000000000000000000014108000000000000000000000000000368590000000000000000000000014075000000000000000000000000000368800000000000000000000000014043000000000000000000000000000369010000000000000000000000014010000000000000000000000000000369220000000000000000000000013978000000000000000000000000000369430000000000000000000000013946000000000000000000000000000369640000000000000000000000013914000000000000000000000000000369850000000000000000000000013882000000000000000000000000000370070000000000000000000000013850000000000000000000000000000370280000000000000000000000013818000000000000000000000000000370500000000000000000000000013786000000000000000000000000000370710000000000000000000000013755000000000000000000000000000370930000000000000000000000013723000000000000000000000000000371140000000000000000000000013691000000000000000000000000000371360000000000000000000000013660000000000000000000000000000371580000000000000000000000013629000000000000000000000000000371800000000000000000000000013597000000000000000000000000000372020000000000000000000000013566000000000000000000000000000372240000000000000000000000013535000000000000000000000000000372460000000000000000000000013504000000000000000000000000000372680000000000000000000000013472000000000000000000000000000372900000000000000000000000013441000000000000000000000000000373120000000000000000000000013411000000000000000000000000000373350000000000000000000000013380000000000000000000000000000373570000000000000000000000013349000000000000000000000000000373800000000000000000000000013318000000000000000000000000000374020000000000000000000000013288000000000000000000000000000374250000000000000000000000013257000000000000000000000000000374470000000000000000000000013226000000000000000000000000000374700000000000000000000000013196000000000000000000000000000374930000000000000000000000013166000000000000000000000000000375160000000000000000000000013135000000000000000000000000000375390000000000000000000000013105000000000000000000000000000375620000000000000000000000013075000000000000000000000000000375850000000000000000000000013045000000000000000000000000000376080000000000000000000000013015000000000000000000000000000376310000000000000000000000012985000000000000000000000000000376540000000000000000000000012955000000000000000000000000000376780000000000000000000000012925000000000000000000000000000377010000000000000000000000012896000000000000000000000000000377250000000000000000000000012866000000000000000000000000000377480000000000000000000000012836000000000000000000000000000377720000000000000000000000012807000000000000000000,
    352930000000000000000000000017159000000000000000000000000000353090000000000000000000000017119000000000000000000000000000353240000000000000000000000017080000000000000000000000000000353400000000000000000000000017040000000000000000000000000000353560000000000000000000000017001000000000000000000000000000353720000000000000000000000016962000000000000000000000000000353880000000000000000000000016923000000000000000000000000000354030000000000000000000000016884000000000000000000000000000354190000000000000000000000016845000000000000000000000000000354360000000000000000000000016807000000000000000000000000000354520000000000000000000000016768000000000000000000000000000354680000000000000000000000016729000000000000000000000000000354840000000000000000000000016691000000000000000000000000000355000000000000000000000000016652000000000000000000000000000355170000000000000000000000016614000000000000000000000000000355330000000000000000000000016576000000000000000000000000000355500000000000000000000000016538000000000000000000000000000355660000000000000000000000016500000000000000000000000000000355830000000000000000000000016462000000000000000000000000000356000000000000000000000000016424000000000000000000000000000356160000000000000000000000016386000000000000000000000000000356330000000000000000000000016348000000000000000000000000000356500000000000000000000000016311000000000000000000000000000356670000000000000000000000016273000000000000000000000000000356840000000000000000000000016236000000000000000000000000000357010000000000000000000000016198000000000000000000000000000357180000000000000000000000016161000000000000000000000000000357350000000000000000000000016124000000000000000000000000000357530000000000000000000000016087000000000000000000000000000357700000000000000000000000016050000000000000000000000000000357870000000000000000000000016013000000000000000000000000000358050000000000000000000000015976000000000000000000000000000358220000000000000000000000015939000000000000000000000000000358400000000000000000000000015903000000000000000000000000000358570000000000000000000000015866000000000000000000000000000358750000000000000000000000015830000000000000000000000000000358930000000000000000000000015793000000000000000000000000000359110000000000000000000000015757000000000000000000000000000359280000000000000000000000015721000000000000000000000000000359460000000000000000000000015684000000000000000000000000000359640000000000000000000000015648000000000000000000000000000359820000000000000000000000015612000000000000000000000000000360000000000000000000000000015576000000000000000000000000000360190000000000000000000000015541000000000000000000000000000360370000000000000000000000015505000000000000000000000000000360550000000000000000000000015469000000000000000000000000000360730000000000000000000000015434000000000000000000000000000360920000000000000000000000015398000000000000000000000000000361100000000000000000000000015363000000000000000000000000000361290000000000000000000000015327000000000000000000000000000361470000000000000000000000015292000000000000000000000000000361660000000000000000000000015257000000000000000000000000000361850000000000000000000000015222000000000000000000000000000362040000000000000000000000015187000000000000000000000000000362220000000000000000000000015152000000000000000000000000000362410000000000000000000000015117000000000000000000000000000362600000000000000000000000015082000000000000000000000000000362790000000000000000000000015047000000000000000000000000000362990000000000000000000000015013000000000000000000000000000363180000000000000000000000014978000000000000000000000000000363370000000000000000000000014944000000000000000000000000000363560000000000000000000000014909000000000000000000000000000363760000000000000000000000014875000000000000000000000000000363950000000000000000000000014841000000000000000000,
    344250000000000000000000000019884000000000000000000000000000344360000000000000000000000019838000000000000000000000000000344480000000000000000000000019793000000000000000000000000000344600000000000000000000000019747000000000000000000000000000344720000000000000000000000019702000000000000000000000000000344830000000000000000000000019656000000000000000000000000000344950000000000000000000000019611000000000000000000000000000345070000000000000000000000019566000000000000000000000000000345190000000000000000000000019521000000000000000000000000000345310000000000000000000000019476000000000000000000000000000345440000000000000000000000019431000000000000000000000000000345560000000000000000000000019387000000000000000000000000000345680000000000000000000000019342000000000000000000000000000345800000000000000000000000019297000000000000000000000000000345930000000000000000000000019253000000000000000000000000000346050000000000000000000000019209000000000000000000000000000346180000000000000000000000019165000000000000000000000000000346300000000000000000000000019120000000000000000000000000000346430000000000000000000000019076000000000000000000000000000346560000000000000000000000019033000000000000000000000000000346690000000000000000000000018989000000000000000000000000000346810000000000000000000000018945000000000000000000000000000346940000000000000000000000018901000000000000000000000000000347070000000000000000000000018858000000000000000000000000000347200000000000000000000000018815000000000000000000000000000347330000000000000000000000018771000000000000000000000000000347470000000000000000000000018728000000000000000000000000000347600000000000000000000000018685000000000000000000000000000347730000000000000000000000018642000000000000000000000000000347870000000000000000000000018599000000000000000000000000000348000000000000000000000000018556000000000000000000000000000348130000000000000000000000018514000000000000000000000000000348270000000000000000000000018471000000000000000000000000000348410000000000000000000000018429000000000000000000000000000348540000000000000000000000018386000000000000000000000000000348680000000000000000000000018344000000000000000000000000000348820000000000000000000000018302000000000000000000000000000348960000000000000000000000018260000000000000000000000000000349100000000000000000000000018218000000000000000000000000000349240000000000000000000000018176000000000000000000000000000349380000000000000000000000018134000000000000000000000000000349520000000000000000000000018092000000000000000000000000000349660000000000000000000000018050000000000000000000000000000349800000000000000000000000018009000000000000000000000000000349940000000000000000000000017968000000000000000000000000000350090000000000000000000000017926000000000000000000000000000350230000000000000000000000017885000000000000000000000000000350380000000000000000000000017844000000000000000000000000000350520000000000000000000000017803000000000000000000000000000350670000000000000000000000017762000000000000000000000000000350810000000000000000000000017721000000000000000000000000000350960000000000000000000000017680000000000000000000000000000351110000000000000000000000017639000000000000000000000000000351260000000000000000000000017599000000000000000000000000000351410000000000000000000000017558000000000000000000000000000351560000000000000000000000017518000000000000000000000000000351710000000000000000000000017478000000000000000000000000000351860000000000000000000000017437000000000000000000000000000352010000000000000000000000017397000000000000000000000000000352160000000000000000000000017357000000000000000000000000000352310000000000000000000000017317000000000000000000000000000352470000000000000000000000017278000000000000000000000000000352620000000000000000000000017238000000000000000000000000000352780000000000000000000000017198000000000000000000,
    338220000000000000000000000023042000000000000000000000000000338300000000000000000000000022989000000000000000000000000000338370000000000000000000000022936000000000000000000000000000338440000000000000000000000022884000000000000000000000000000338520000000000000000000000022831000000000000000000000000000338590000000000000000000000022778000000000000000000000000000338670000000000000000000000022726000000000000000000000000000338750000000000000000000000022674000000000000000000000000000338820000000000000000000000022622000000000000000000000000000338900000000000000000000000022569000000000000000000000000000338980000000000000000000000022518000000000000000000000000000339060000000000000000000000022466000000000000000000000000000339140000000000000000000000022414000000000000000000000000000339220000000000000000000000022362000000000000000000000000000339300000000000000000000000022311000000000000000000000000000339380000000000000000000000022260000000000000000000000000000339470000000000000000000000022208000000000000000000000000000339550000000000000000000000022157000000000000000000000000000339640000000000000000000000022106000000000000000000000000000339720000000000000000000000022056000000000000000000000000000339810000000000000000000000022005000000000000000000000000000339890000000000000000000000021954000000000000000000000000000339980000000000000000000000021904000000000000000000000000000340070000000000000000000000021853000000000000000000000000000340160000000000000000000000021803000000000000000000000000000340250000000000000000000000021753000000000000000000000000000340340000000000000000000000021703000000000000000000000000000340430000000000000000000000021653000000000000000000000000000340520000000000000000000000021603000000000000000000000000000340610000000000000000000000021553000000000000000000000000000340700000000000000000000000021504000000000000000000000000000340800000000000000000000000021454000000000000000000000000000340890000000000000000000000021405000000000000000000000000000340980000000000000000000000021356000000000000000000000000000341080000000000000000000000021307000000000000000000000000000341180000000000000000000000021258000000000000000000000000000341270000000000000000000000021209000000000000000000000000000341370000000000000000000000021160000000000000000000000000000341470000000000000000000000021111000000000000000000000000000341570000000000000000000000021063000000000000000000000000000341670000000000000000000000021014000000000000000000000000000341770000000000000000000000020966000000000000000000000000000341870000000000000000000000020918000000000000000000000000000341970000000000000000000000020869000000000000000000000000000342070000000000000000000000020821000000000000000000000000000342170000000000000000000000020773000000000000000000000000000342280000000000000000000000020726000000000000000000000000000342380000000000000000000000020678000000000000000000000000000342480000000000000000000000020630000000000000000000000000000342590000000000000000000000020583000000000000000000000000000342700000000000000000000000020536000000000000000000000000000342800000000000000000000000020488000000000000000000000000000342910000000000000000000000020441000000000000000000000000000343020000000000000000000000020394000000000000000000000000000343130000000000000000000000020347000000000000000000000000000343240000000000000000000000020300000000000000000000000000000343350000000000000000000000020254000000000000000000000000000343460000000000000000000000020207000000000000000000000000000343570000000000000000000000020161000000000000000000000000000343680000000000000000000000020114000000000000000000000000000343790000000000000000000000020068000000000000000000000000000343900000000000000000000000020022000000000000000000000000000344020000000000000000000000019976000000000000000000000000000344130000000000000000000000019930000000000000000000,
    335150000000000000000000000026702000000000000000000000000000335170000000000000000000000026641000000000000000000000000000335200000000000000000000000026579000000000000000000000000000335220000000000000000000000026518000000000000000000000000000335250000000000000000000000026457000000000000000000000000000335270000000000000000000000026396000000000000000000000000000335300000000000000000000000026336000000000000000000000000000335330000000000000000000000026275000000000000000000000000000335360000000000000000000000026215000000000000000000000000000335390000000000000000000000026154000000000000000000000000000335420000000000000000000000026094000000000000000000000000000335450000000000000000000000026034000000000000000000000000000335480000000000000000000000025974000000000000000000000000000335510000000000000000000000025914000000000000000000000000000335550000000000000000000000025855000000000000000000000000000335580000000000000000000000025795000000000000000000000000000335620000000000000000000000025736000000000000000000000000000335650000000000000000000000025677000000000000000000000000000335690000000000000000000000025618000000000000000000000000000335730000000000000000000000025559000000000000000000000000000335770000000000000000000000025500000000000000000000000000000335810000000000000000000000025441000000000000000000000000000335850000000000000000000000025383000000000000000000000000000335890000000000000000000000025324000000000000000000000000000335930000000000000000000000025266000000000000000000000000000335970000000000000000000000025208000000000000000000000000000336020000000000000000000000025150000000000000000000000000000336060000000000000000000000025092000000000000000000000000000336110000000000000000000000025034000000000000000000000000000336150000000000000000000000024977000000000000000000000000000336200000000000000000000000024919000000000000000000000000000336240000000000000000000000024862000000000000000000000000000336290000000000000000000000024805000000000000000000000000000336340000000000000000000000024748000000000000000000000000000336390000000000000000000000024691000000000000000000000000000336440000000000000000000000024634000000000000000000000000000336490000000000000000000000024577000000000000000000000000000336540000000000000000000000024521000000000000000000000000000336600000000000000000000000024464000000000000000000000000000336650000000000000000000000024408000000000000000000000000000336700000000000000000000000024352000000000000000000000000000336760000000000000000000000024296000000000000000000000000000336810000000000000000000000024240000000000000000000000000000336870000000000000000000000024184000000000000000000000000000336930000000000000000000000024129000000000000000000000000000336990000000000000000000000024073000000000000000000000000000337040000000000000000000000024018000000000000000000000000000337100000000000000000000000023962000000000000000000000000000337160000000000000000000000023907000000000000000000000000000337220000000000000000000000023852000000000000000000000000000337290000000000000000000000023797000000000000000000000000000337350000000000000000000000023743000000000000000000000000000337410000000000000000000000023688000000000000000000000000000337470000000000000000000000023634000000000000000000000000000337540000000000000000000000023579000000000000000000000000000337600000000000000000000000023525000000000000000000000000000337670000000000000000000000023471000000000000000000000000000337740000000000000000000000023417000000000000000000000000000337800000000000000000000000023363000000000000000000000000000337870000000000000000000000023309000000000000000000000000000337940000000000000000000000023256000000000000000000000000000338010000000000000000000000023202000000000000000000000000000338080000000000000000000000023149000000000000000000000000000338150000000000000000000000023095000000000000000000,
    335470000000000000000000000030943000000000000000000000000000335430000000000000000000000030872000000000000000000000000000335400000000000000000000000030801000000000000000000000000000335370000000000000000000000030730000000000000000000000000000335340000000000000000000000030660000000000000000000000000000335310000000000000000000000030589000000000000000000000000000335280000000000000000000000030519000000000000000000000000000335250000000000000000000000030448000000000000000000000000000335220000000000000000000000030378000000000000000000000000000335200000000000000000000000030308000000000000000000000000000335170000000000000000000000030239000000000000000000000000000335150000000000000000000000030169000000000000000000000000000335120000000000000000000000030100000000000000000000000000000335100000000000000000000000030031000000000000000000000000000335080000000000000000000000029961000000000000000000000000000335060000000000000000000000029892000000000000000000000000000335040000000000000000000000029824000000000000000000000000000335020000000000000000000000029755000000000000000000000000000335000000000000000000000000029687000000000000000000000000000334990000000000000000000000029618000000000000000000000000000334970000000000000000000000029550000000000000000000000000000334950000000000000000000000029482000000000000000000000000000334940000000000000000000000029414000000000000000000000000000334930000000000000000000000029347000000000000000000000000000334920000000000000000000000029279000000000000000000000000000334900000000000000000000000029212000000000000000000000000000334890000000000000000000000029145000000000000000000000000000334880000000000000000000000029078000000000000000000000000000334880000000000000000000000029011000000000000000000000000000334870000000000000000000000028944000000000000000000000000000334860000000000000000000000028877000000000000000000000000000334850000000000000000000000028811000000000000000000000000000334850000000000000000000000028745000000000000000000000000000334850000000000000000000000028678000000000000000000000000000334840000000000000000000000028613000000000000000000000000000334840000000000000000000000028547000000000000000000000000000334840000000000000000000000028481000000000000000000000000000334840000000000000000000000028415000000000000000000000000000334840000000000000000000000028350000000000000000000000000000334840000000000000000000000028285000000000000000000000000000334840000000000000000000000028220000000000000000000000000000334840000000000000000000000028155000000000000000000000000000334850000000000000000000000028090000000000000000000000000000334850000000000000000000000028025000000000000000000000000000334860000000000000000000000027961000000000000000000000000000334860000000000000000000000027897000000000000000000000000000334870000000000000000000000027832000000000000000000000000000334880000000000000000000000027768000000000000000000000000000334890000000000000000000000027705000000000000000000000000000334900000000000000000000000027641000000000000000000000000000334910000000000000000000000027577000000000000000000000000000334920000000000000000000000027514000000000000000000000000000334930000000000000000000000027450000000000000000000000000000334950000000000000000000000027387000000000000000000000000000334960000000000000000000000027324000000000000000000000000000334980000000000000000000000027261000000000000000000000000000334990000000000000000000000027199000000000000000000000000000335010000000000000000000000027136000000000000000000000000000335030000000000000000000000027074000000000000000000000000000335040000000000000000000000027011000000000000000000000000000335060000000000000000000000026949000000000000000000000000000335080000000000000000000000026887000000000000000000000000000335100000000000000000000000026825000000000000000000000000000335130000000000000000000000026764000000000000000000,
    339760000000000000000000000035858000000000000000000000000000339660000000000000000000000035776000000000000000000000000000339560000000000000000000000035693000000000000000000000000000339460000000000000000000000035611000000000000000000000000000339370000000000000000000000035529000000000000000000000000000339270000000000000000000000035448000000000000000000000000000339170000000000000000000000035366000000000000000000000000000339080000000000000000000000035285000000000000000000000000000338990000000000000000000000035204000000000000000000000000000338890000000000000000000000035123000000000000000000000000000338800000000000000000000000035042000000000000000000000000000338710000000000000000000000034961000000000000000000000000000338620000000000000000000000034881000000000000000000000000000338540000000000000000000000034800000000000000000000000000000338450000000000000000000000034720000000000000000000000000000338360000000000000000000000034640000000000000000000000000000338280000000000000000000000034561000000000000000000000000000338200000000000000000000000034481000000000000000000000000000338110000000000000000000000034402000000000000000000000000000338030000000000000000000000034323000000000000000000000000000337950000000000000000000000034244000000000000000000000000000337870000000000000000000000034165000000000000000000000000000337800000000000000000000000034086000000000000000000000000000337720000000000000000000000034008000000000000000000000000000337640000000000000000000000033930000000000000000000000000000337570000000000000000000000033852000000000000000000000000000337490000000000000000000000033774000000000000000000000000000337420000000000000000000000033696000000000000000000000000000337350000000000000000000000033619000000000000000000000000000337280000000000000000000000033541000000000000000000000000000337210000000000000000000000033464000000000000000000000000000337140000000000000000000000033387000000000000000000000000000337080000000000000000000000033310000000000000000000000000000337010000000000000000000000033234000000000000000000000000000336940000000000000000000000033157000000000000000000000000000336880000000000000000000000033081000000000000000000000000000336820000000000000000000000033005000000000000000000000000000336760000000000000000000000032929000000000000000000000000000336690000000000000000000000032853000000000000000000000000000336630000000000000000000000032777000000000000000000000000000336580000000000000000000000032702000000000000000000000000000336520000000000000000000000032627000000000000000000000000000336460000000000000000000000032552000000000000000000000000000336410000000000000000000000032477000000000000000000000000000336350000000000000000000000032402000000000000000000000000000336300000000000000000000000032328000000000000000000000000000336240000000000000000000000032253000000000000000000000000000336190000000000000000000000032179000000000000000000000000000336140000000000000000000000032105000000000000000000000000000336090000000000000000000000032031000000000000000000000000000336040000000000000000000000031957000000000000000000000000000336000000000000000000000000031884000000000000000000000000000335950000000000000000000000031811000000000000000000000000000335900000000000000000000000031737000000000000000000000000000335860000000000000000000000031664000000000000000000000000000335810000000000000000000000031591000000000000000000000000000335770000000000000000000000031519000000000000000000000000000335730000000000000000000000031446000000000000000000000000000335690000000000000000000000031374000000000000000000000000000335650000000000000000000000031302000000000000000000000000000335610000000000000000000000031230000000000000000000000000000335570000000000000000000000031158000000000000000000000000000335540000000000000000000000031086000000000000000000000000000335500000000000000000000000031015000000000000000000,
    348750000000000000000000000041554000000000000000000000000000348570000000000000000000000041458000000000000000000000000000348390000000000000000000000041363000000000000000000000000000348220000000000000000000000041268000000000000000000000000000348040000000000000000000000041173000000000000000000000000000347860000000000000000000000041078000000000000000000000000000347690000000000000000000000040983000000000000000000000000000347520000000000000000000000040889000000000000000000000000000347350000000000000000000000040795000000000000000000000000000347180000000000000000000000040701000000000000000000000000000347010000000000000000000000040608000000000000000000000000000346840000000000000000000000040514000000000000000000000000000346670000000000000000000000040421000000000000000000000000000346510000000000000000000000040328000000000000000000000000000346350000000000000000000000040235000000000000000000000000000346180000000000000000000000040143000000000000000000000000000346020000000000000000000000040050000000000000000000000000000345860000000000000000000000039958000000000000000000000000000345700000000000000000000000039866000000000000000000000000000345550000000000000000000000039774000000000000000000000000000345390000000000000000000000039683000000000000000000000000000345240000000000000000000000039592000000000000000000000000000345080000000000000000000000039500000000000000000000000000000344930000000000000000000000039410000000000000000000000000000344780000000000000000000000039319000000000000000000000000000344630000000000000000000000039228000000000000000000000000000344480000000000000000000000039138000000000000000000000000000344340000000000000000000000039048000000000000000000000000000344190000000000000000000000038958000000000000000000000000000344050000000000000000000000038869000000000000000000000000000343900000000000000000000000038779000000000000000000000000000343760000000000000000000000038690000000000000000000000000000343620000000000000000000000038601000000000000000000000000000343480000000000000000000000038512000000000000000000000000000343340000000000000000000000038424000000000000000000000000000343210000000000000000000000038335000000000000000000000000000343070000000000000000000000038247000000000000000000000000000342940000000000000000000000038159000000000000000000000000000342800000000000000000000000038071000000000000000000000000000342670000000000000000000000037984000000000000000000000000000342540000000000000000000000037896000000000000000000000000000342410000000000000000000000037809000000000000000000000000000342280000000000000000000000037722000000000000000000000000000342160000000000000000000000037635000000000000000000000000000342030000000000000000000000037549000000000000000000000000000341910000000000000000000000037462000000000000000000000000000341780000000000000000000000037376000000000000000000000000000341660000000000000000000000037290000000000000000000000000000341540000000000000000000000037204000000000000000000000000000341420000000000000000000000037119000000000000000000000000000341300000000000000000000000037033000000000000000000000000000341180000000000000000000000036948000000000000000000000000000341070000000000000000000000036863000000000000000000000000000340950000000000000000000000036778000000000000000000000000000340840000000000000000000000036694000000000000000000000000000340730000000000000000000000036609000000000000000000000000000340610000000000000000000000036525000000000000000000000000000340500000000000000000000000036441000000000000000000000000000340390000000000000000000000036357000000000000000000000000000340290000000000000000000000036274000000000000000000000000000340180000000000000000000000036190000000000000000000000000000340070000000000000000000000036107000000000000000000000000000339970000000000000000000000036024000000000000000000000000000339870000000000000000000000035941000000000000000000,
    363300000000000000000000000048154000000000000000000000000000363020000000000000000000000048043000000000000000000000000000362740000000000000000000000047933000000000000000000000000000362470000000000000000000000047822000000000000000000000000000362200000000000000000000000047712000000000000000000000000000361930000000000000000000000047602000000000000000000000000000361660000000000000000000000047493000000000000000000000000000361390000000000000000000000047384000000000000000000000000000361130000000000000000000000047275000000000000000000000000000360870000000000000000000000047166000000000000000000000000000360610000000000000000000000047057000000000000000000000000000360350000000000000000000000046949000000000000000000000000000360090000000000000000000000046841000000000000000000000000000359830000000000000000000000046733000000000000000000000000000359580000000000000000000000046626000000000000000000000000000359330000000000000000000000046519000000000000000000000000000359070000000000000000000000046412000000000000000000000000000358820000000000000000000000046305000000000000000000000000000358580000000000000000000000046198000000000000000000000000000358330000000000000000000000046092000000000000000000000000000358090000000000000000000000045986000000000000000000000000000357840000000000000000000000045880000000000000000000000000000357600000000000000000000000045775000000000000000000000000000357360000000000000000000000045669000000000000000000000000000357120000000000000000000000045564000000000000000000000000000356880000000000000000000000045459000000000000000000000000000356650000000000000000000000045355000000000000000000000000000356410000000000000000000000045250000000000000000000000000000356180000000000000000000000045146000000000000000000000000000355950000000000000000000000045042000000000000000000000000000355720000000000000000000000044939000000000000000000000000000355490000000000000000000000044835000000000000000000000000000355260000000000000000000000044732000000000000000000000000000355040000000000000000000000044629000000000000000000000000000354810000000000000000000000044527000000000000000000000000000354590000000000000000000000044424000000000000000000000000000354370000000000000000000000044322000000000000000000000000000354150000000000000000000000044220000000000000000000000000000353930000000000000000000000044118000000000000000000000000000353720000000000000000000000044017000000000000000000000000000353500000000000000000000000043916000000000000000000000000000353290000000000000000000000043814000000000000000000000000000353070000000000000000000000043714000000000000000000000000000352860000000000000000000000043613000000000000000000000000000352650000000000000000000000043513000000000000000000000000000352450000000000000000000000043413000000000000000000000000000352240000000000000000000000043313000000000000000000000000000352030000000000000000000000043213000000000000000000000000000351830000000000000000000000043114000000000000000000000000000351630000000000000000000000043015000000000000000000000000000351430000000000000000000000042916000000000000000000000000000351230000000000000000000000042817000000000000000000000000000351030000000000000000000000042718000000000000000000000000000350830000000000000000000000042620000000000000000000000000000350630000000000000000000000042522000000000000000000000000000350440000000000000000000000042424000000000000000000000000000350250000000000000000000000042327000000000000000000000000000350060000000000000000000000042229000000000000000000000000000349870000000000000000000000042132000000000000000000000000000349680000000000000000000000042035000000000000000000000000000349490000000000000000000000041938000000000000000000000000000349300000000000000000000000041842000000000000000000000000000349120000000000000000000000041746000000000000000000000000000348940000000000000000000000041650000000000000000000,
    384190000000000000000000000055802000000000000000000000000000383810000000000000000000000055674000000000000000000000000000383430000000000000000000000055546000000000000000000000000000383050000000000000000000000055418000000000000000000000000000382680000000000000000000000055291000000000000000000000000000382300000000000000000000000055163000000000000000000000000000381930000000000000000000000055036000000000000000000000000000381560000000000000000000000054910000000000000000000000000000381190000000000000000000000054784000000000000000000000000000380830000000000000000000000054657000000000000000000000000000380460000000000000000000000054532000000000000000000000000000380100000000000000000000000054406000000000000000000000000000379740000000000000000000000054281000000000000000000000000000379380000000000000000000000054156000000000000000000000000000379020000000000000000000000054032000000000000000000000000000378660000000000000000000000053907000000000000000000000000000378310000000000000000000000053783000000000000000000000000000377950000000000000000000000053660000000000000000000000000000377600000000000000000000000053536000000000000000000000000000377250000000000000000000000053413000000000000000000000000000376910000000000000000000000053290000000000000000000000000000376560000000000000000000000053167000000000000000000000000000376220000000000000000000000053045000000000000000000000000000375870000000000000000000000052923000000000000000000000000000375530000000000000000000000052801000000000000000000000000000375190000000000000000000000052680000000000000000000000000000374860000000000000000000000052559000000000000000000000000000374520000000000000000000000052438000000000000000000000000000374190000000000000000000000052317000000000000000000000000000373860000000000000000000000052197000000000000000000000000000373530000000000000000000000052077000000000000000000000000000373200000000000000000000000051957000000000000000000000000000372880000000000000000000000051837000000000000000000000000000372550000000000000000000000051718000000000000000000000000000372230000000000000000000000051599000000000000000000000000000371910000000000000000000000051480000000000000000000000000000371590000000000000000000000051362000000000000000000000000000371280000000000000000000000051244000000000000000000000000000370970000000000000000000000051126000000000000000000000000000370660000000000000000000000051008000000000000000000000000000370350000000000000000000000050891000000000000000000000000000370050000000000000000000000050774000000000000000000000000000369750000000000000000000000050657000000000000000000000000000369460000000000000000000000050540000000000000000000000000000369190000000000000000000000050424000000000000000000000000000368930000000000000000000000050308000000000000000000000000000368710000000000000000000000050192000000000000000000000000000368560000000000000000000000050077000000000000000000000000000368620000000000000000000000049962000000000000000000000000000369460000000000000000000000049847000000000000000000000000000377300000000000000000000000049732000000000000000000000000000469370000000000000000000000049618000000000000000000000000000370730000000000000000000000049503000000000000000000000000000367630000000000000000000000049390000000000000000000000000000366680000000000000000000000049276000000000000000000000000000366150000000000000000000000049163000000000000000000000000000365740000000000000000000000049049000000000000000000000000000365380000000000000000000000048937000000000000000000000000000365060000000000000000000000048824000000000000000000000000000364750000000000000000000000048712000000000000000000000000000364450000000000000000000000048600000000000000000000000000000364150000000000000000000000048488000000000000000000000000000363860000000000000000000000048376000000000000000000000000000363580000000000000000000000048265000000000000000000,
    412530000000000000000000000064666000000000000000000000000000412030000000000000000000000064517000000000000000000000000000411530000000000000000000000064368000000000000000000000000000411030000000000000000000000064220000000000000000000000000000410530000000000000000000000064073000000000000000000000000000410030000000000000000000000063925000000000000000000000000000409530000000000000000000000063778000000000000000000000000000409040000000000000000000000063631000000000000000000000000000408550000000000000000000000063485000000000000000000000000000408060000000000000000000000063339000000000000000000000000000407580000000000000000000000063193000000000000000000000000000407090000000000000000000000063048000000000000000000000000000406610000000000000000000000062903000000000000000000000000000406130000000000000000000000062758000000000000000000000000000405650000000000000000000000062614000000000000000000000000000405170000000000000000000000062470000000000000000000000000000404700000000000000000000000062326000000000000000000000000000404230000000000000000000000062183000000000000000000000000000403760000000000000000000000062039000000000000000000000000000403290000000000000000000000061897000000000000000000000000000402820000000000000000000000061754000000000000000000000000000402360000000000000000000000061612000000000000000000000000000401890000000000000000000000061470000000000000000000000000000401430000000000000000000000061329000000000000000000000000000400970000000000000000000000061188000000000000000000000000000400520000000000000000000000061047000000000000000000000000000400060000000000000000000000060907000000000000000000000000000399610000000000000000000000060767000000000000000000000000000399160000000000000000000000060627000000000000000000000000000398710000000000000000000000060487000000000000000000000000000398260000000000000000000000060348000000000000000000000000000397820000000000000000000000060209000000000000000000000000000397370000000000000000000000060071000000000000000000000000000396930000000000000000000000059933000000000000000000000000000396490000000000000000000000059795000000000000000000000000000396060000000000000000000000059657000000000000000000000000000395620000000000000000000000059520000000000000000000000000000395190000000000000000000000059383000000000000000000000000000394760000000000000000000000059246000000000000000000000000000394330000000000000000000000059110000000000000000000000000000393900000000000000000000000058974000000000000000000000000000393470000000000000000000000058838000000000000000000000000000393050000000000000000000000058703000000000000000000000000000392630000000000000000000000058568000000000000000000000000000392210000000000000000000000058433000000000000000000000000000391790000000000000000000000058299000000000000000000000000000391370000000000000000000000058165000000000000000000000000000390960000000000000000000000058031000000000000000000000000000390540000000000000000000000057897000000000000000000000000000390130000000000000000000000057764000000000000000000000000000389720000000000000000000000057631000000000000000000000000000389320000000000000000000000057499000000000000000000000000000388910000000000000000000000057366000000000000000000000000000388510000000000000000000000057234000000000000000000000000000388110000000000000000000000057103000000000000000000000000000387710000000000000000000000056971000000000000000000000000000387310000000000000000000000056840000000000000000000000000000386910000000000000000000000056709000000000000000000000000000386520000000000000000000000056579000000000000000000000000000386130000000000000000000000056449000000000000000000000000000385740000000000000000000000056319000000000000000000000000000385350000000000000000000000056189000000000000000000000000000384960000000000000000000000056060000000000000000000000000000384580000000000000000000000055931000000000000000000,
    449330000000000000000000000074937000000000000000000000000000448680000000000000000000000074764000000000000000000000000000448040000000000000000000000074592000000000000000000000000000447400000000000000000000000074421000000000000000000000000000446760000000000000000000000074250000000000000000000000000000446120000000000000000000000074079000000000000000000000000000445490000000000000000000000073908000000000000000000000000000444860000000000000000000000073738000000000000000000000000000444230000000000000000000000073569000000000000000000000000000443600000000000000000000000073399000000000000000000000000000442980000000000000000000000073230000000000000000000000000000442350000000000000000000000073062000000000000000000000000000441730000000000000000000000072894000000000000000000000000000441120000000000000000000000072726000000000000000000000000000440500000000000000000000000072559000000000000000000000000000439890000000000000000000000072392000000000000000000000000000439280000000000000000000000072225000000000000000000000000000438670000000000000000000000072059000000000000000000000000000438060000000000000000000000071893000000000000000000000000000437460000000000000000000000071728000000000000000000000000000436860000000000000000000000071563000000000000000000000000000436260000000000000000000000071398000000000000000000000000000435660000000000000000000000071234000000000000000000000000000435060000000000000000000000071070000000000000000000000000000434470000000000000000000000070907000000000000000000000000000433880000000000000000000000070744000000000000000000000000000433290000000000000000000000070581000000000000000000000000000432710000000000000000000000070418000000000000000000000000000432120000000000000000000000070256000000000000000000000000000431540000000000000000000000070095000000000000000000000000000430960000000000000000000000069933000000000000000000000000000430380000000000000000000000069773000000000000000000000000000429810000000000000000000000069612000000000000000000000000000429230000000000000000000000069452000000000000000000000000000428660000000000000000000000069292000000000000000000000000000428090000000000000000000000069133000000000000000000000000000427530000000000000000000000068974000000000000000000000000000426960000000000000000000000068815000000000000000000000000000426400000000000000000000000068657000000000000000000000000000425840000000000000000000000068499000000000000000000000000000425280000000000000000000000068341000000000000000000000000000424730000000000000000000000068184000000000000000000000000000424170000000000000000000000068027000000000000000000000000000423620000000000000000000000067870000000000000000000000000000423070000000000000000000000067714000000000000000000000000000422530000000000000000000000067559000000000000000000000000000421980000000000000000000000067403000000000000000000000000000421440000000000000000000000067248000000000000000000000000000420900000000000000000000000067093000000000000000000000000000420360000000000000000000000066939000000000000000000000000000419820000000000000000000000066785000000000000000000000000000419290000000000000000000000066631000000000000000000000000000418760000000000000000000000066478000000000000000000000000000418230000000000000000000000066325000000000000000000000000000417700000000000000000000000066172000000000000000000000000000417170000000000000000000000066020000000000000000000000000000416650000000000000000000000065868000000000000000000000000000416130000000000000000000000065717000000000000000000000000000415610000000000000000000000065566000000000000000000000000000415090000000000000000000000065415000000000000000000000000000414580000000000000000000000065264000000000000000000000000000414060000000000000000000000065114000000000000000000000000000413550000000000000000000000064964000000000000000000000000000413040000000000000000000000064815000000000000000000,
    495690000000000000000000000086839000000000000000000000000000494880000000000000000000000086640000000000000000000000000000494080000000000000000000000086440000000000000000000000000000493280000000000000000000000086241000000000000000000000000000492490000000000000000000000086043000000000000000000000000000491690000000000000000000000085845000000000000000000000000000490900000000000000000000000085647000000000000000000000000000490110000000000000000000000085450000000000000000000000000000489330000000000000000000000085254000000000000000000000000000488550000000000000000000000085058000000000000000000000000000487760000000000000000000000084862000000000000000000000000000486990000000000000000000000084667000000000000000000000000000486210000000000000000000000084472000000000000000000000000000485440000000000000000000000084278000000000000000000000000000484670000000000000000000000084084000000000000000000000000000483900000000000000000000000083890000000000000000000000000000483140000000000000000000000083697000000000000000000000000000482370000000000000000000000083505000000000000000000000000000481610000000000000000000000083313000000000000000000000000000480860000000000000000000000083121000000000000000000000000000480100000000000000000000000082930000000000000000000000000000479350000000000000000000000082739000000000000000000000000000478600000000000000000000000082549000000000000000000000000000477850000000000000000000000082359000000000000000000000000000477110000000000000000000000082169000000000000000000000000000476360000000000000000000000081980000000000000000000000000000475620000000000000000000000081791000000000000000000000000000474890000000000000000000000081603000000000000000000000000000474150000000000000000000000081416000000000000000000000000000473420000000000000000000000081228000000000000000000000000000472690000000000000000000000081041000000000000000000000000000471960000000000000000000000080855000000000000000000000000000471240000000000000000000000080669000000000000000000000000000470520000000000000000000000080483000000000000000000000000000469800000000000000000000000080298000000000000000000000000000469080000000000000000000000080113000000000000000000000000000468360000000000000000000000079929000000000000000000000000000467650000000000000000000000079745000000000000000000000000000466940000000000000000000000079562000000000000000000000000000466230000000000000000000000079379000000000000000000000000000465530000000000000000000000079196000000000000000000000000000464830000000000000000000000079014000000000000000000000000000464130000000000000000000000078832000000000000000000000000000463430000000000000000000000078651000000000000000000000000000462730000000000000000000000078470000000000000000000000000000462040000000000000000000000078289000000000000000000000000000461350000000000000000000000078109000000000000000000000000000460660000000000000000000000077929000000000000000000000000000459970000000000000000000000077750000000000000000000000000000459290000000000000000000000077571000000000000000000000000000458610000000000000000000000077393000000000000000000000000000457930000000000000000000000077215000000000000000000000000000457260000000000000000000000077037000000000000000000000000000456580000000000000000000000076860000000000000000000000000000455910000000000000000000000076683000000000000000000000000000455240000000000000000000000076506000000000000000000000000000454580000000000000000000000076330000000000000000000000000000453910000000000000000000000076155000000000000000000000000000453250000000000000000000000075980000000000000000000000000000452590000000000000000000000075805000000000000000000000000000451930000000000000000000000075630000000000000000000000000000451280000000000000000000000075456000000000000000000000000000450630000000000000000000000075283000000000000000000000000000449980000000000000000000000075110000000000000000000,
    552840000000000000000000000100630000000000000000000000000000551860000000000000000000000100400000000000000000000000000000550880000000000000000000000100170000000000000000000000000000549910000000000000000000000099939000000000000000000000000000548960000000000000000000000099710000000000000000000000000000548130000000000000000000000099480000000000000000000000000000552290000000000000000000000099251000000000000000000000000000546120000000000000000000000099023000000000000000000000000000545080000000000000000000000098795000000000000000000000000000544110000000000000000000000098568000000000000000000000000000543150000000000000000000000098341000000000000000000000000000542190000000000000000000000098115000000000000000000000000000541240000000000000000000000097889000000000000000000000000000540290000000000000000000000097664000000000000000000000000000539350000000000000000000000097439000000000000000000000000000538410000000000000000000000097215000000000000000000000000000537470000000000000000000000096991000000000000000000000000000536530000000000000000000000096768000000000000000000000000000535600000000000000000000000096545000000000000000000000000000534670000000000000000000000096323000000000000000000000000000533740000000000000000000000096102000000000000000000000000000532810000000000000000000000095881000000000000000000000000000531890000000000000000000000095660000000000000000000000000000530970000000000000000000000095440000000000000000000000000000530060000000000000000000000095220000000000000000000000000000529140000000000000000000000095001000000000000000000000000000528230000000000000000000000094783000000000000000000000000000527330000000000000000000000094565000000000000000000000000000526420000000000000000000000094347000000000000000000000000000525520000000000000000000000094130000000000000000000000000000524620000000000000000000000093913000000000000000000000000000523720000000000000000000000093697000000000000000000000000000522830000000000000000000000093482000000000000000000000000000521940000000000000000000000093267000000000000000000000000000521050000000000000000000000093052000000000000000000000000000520170000000000000000000000092838000000000000000000000000000519290000000000000000000000092625000000000000000000000000000518410000000000000000000000092411000000000000000000000000000517530000000000000000000000092199000000000000000000000000000516650000000000000000000000091987000000000000000000000000000515780000000000000000000000091775000000000000000000000000000514920000000000000000000000091564000000000000000000000000000514050000000000000000000000091353000000000000000000000000000513190000000000000000000000091143000000000000000000000000000512330000000000000000000000090933000000000000000000000000000511470000000000000000000000090724000000000000000000000000000510610000000000000000000000090515000000000000000000000000000509760000000000000000000000090307000000000000000000000000000508910000000000000000000000090099000000000000000000000000000508070000000000000000000000089892000000000000000000000000000507220000000000000000000000089685000000000000000000000000000506380000000000000000000000089479000000000000000000000000000505540000000000000000000000089273000000000000000000000000000504710000000000000000000000089068000000000000000000000000000503870000000000000000000000088863000000000000000000000000000503040000000000000000000000088658000000000000000000000000000502210000000000000000000000088454000000000000000000000000000501390000000000000000000000088251000000000000000000000000000500570000000000000000000000088048000000000000000000000000000499750000000000000000000000087845000000000000000000000000000498930000000000000000000000087643000000000000000000000000000498120000000000000000000000087441000000000000000000000000000497300000000000000000000000087240000000000000000000000000000496490000000000000000000000087040000000000000000000,
    622140000000000000000000000116620000000000000000000000000000620960000000000000000000000116350000000000000000000000000000619780000000000000000000000116080000000000000000000000000000618600000000000000000000000115810000000000000000000000000000617420000000000000000000000115550000000000000000000000000000616250000000000000000000000115280000000000000000000000000000615090000000000000000000000115020000000000000000000000000000613920000000000000000000000114750000000000000000000000000000612760000000000000000000000114490000000000000000000000000000611600000000000000000000000114220000000000000000000000000000610450000000000000000000000113960000000000000000000000000000609300000000000000000000000113700000000000000000000000000000608150000000000000000000000113440000000000000000000000000000607010000000000000000000000113180000000000000000000000000000605860000000000000000000000112920000000000000000000000000000604730000000000000000000000112660000000000000000000000000000603590000000000000000000000112400000000000000000000000000000602460000000000000000000000112140000000000000000000000000000601330000000000000000000000111880000000000000000000000000000600210000000000000000000000111620000000000000000000000000000599090000000000000000000000111370000000000000000000000000000597970000000000000000000000111110000000000000000000000000000596850000000000000000000000110850000000000000000000000000000595740000000000000000000000110600000000000000000000000000000594630000000000000000000000110340000000000000000000000000000593530000000000000000000000110090000000000000000000000000000592420000000000000000000000109840000000000000000000000000000591320000000000000000000000109580000000000000000000000000000590230000000000000000000000109330000000000000000000000000000589130000000000000000000000109080000000000000000000000000000588050000000000000000000000108830000000000000000000000000000586960000000000000000000000108580000000000000000000000000000585870000000000000000000000108330000000000000000000000000000584790000000000000000000000108080000000000000000000000000000583720000000000000000000000107830000000000000000000000000000582640000000000000000000000107580000000000000000000000000000581570000000000000000000000107340000000000000000000000000000580500000000000000000000000107090000000000000000000000000000579440000000000000000000000106840000000000000000000000000000578380000000000000000000000106600000000000000000000000000000577320000000000000000000000106350000000000000000000000000000576260000000000000000000000106110000000000000000000000000000575210000000000000000000000105860000000000000000000000000000574160000000000000000000000105620000000000000000000000000000573120000000000000000000000105380000000000000000000000000000572070000000000000000000000105130000000000000000000000000000571030000000000000000000000104890000000000000000000000000000570000000000000000000000000104650000000000000000000000000000568960000000000000000000000104410000000000000000000000000000567930000000000000000000000104170000000000000000000000000000566910000000000000000000000103930000000000000000000000000000565880000000000000000000000103690000000000000000000000000000564860000000000000000000000103450000000000000000000000000000563840000000000000000000000103210000000000000000000000000000562830000000000000000000000102980000000000000000000000000000561810000000000000000000000102740000000000000000000000000000560800000000000000000000000102500000000000000000000000000000559800000000000000000000000102270000000000000000000000000000558790000000000000000000000102030000000000000000000000000000557790000000000000000000000101800000000000000000000000000000556800000000000000000000000101560000000000000000000000000000555800000000000000000000000101330000000000000000000000000000554810000000000000000000000101100000000000000000000000000000553820000000000000000000000100860000000000000000000,
    705180000000000000000000000135140000000000000000000000000000703770000000000000000000000134830000000000000000000000000000702360000000000000000000000134520000000000000000000000000000700960000000000000000000000134210000000000000000000000000000699550000000000000000000000133900000000000000000000000000000698160000000000000000000000133590000000000000000000000000000696760000000000000000000000133280000000000000000000000000000695370000000000000000000000132980000000000000000000000000000693990000000000000000000000132670000000000000000000000000000692610000000000000000000000132370000000000000000000000000000691230000000000000000000000132060000000000000000000000000000689850000000000000000000000131760000000000000000000000000000688480000000000000000000000131450000000000000000000000000000687120000000000000000000000131150000000000000000000000000000685750000000000000000000000130850000000000000000000000000000684390000000000000000000000130550000000000000000000000000000683040000000000000000000000130250000000000000000000000000000681680000000000000000000000129950000000000000000000000000000680340000000000000000000000129650000000000000000000000000000678990000000000000000000000129350000000000000000000000000000677650000000000000000000000129050000000000000000000000000000676310000000000000000000000128760000000000000000000000000000674980000000000000000000000128460000000000000000000000000000673650000000000000000000000128170000000000000000000000000000672320000000000000000000000127870000000000000000000000000000671000000000000000000000000127580000000000000000000000000000669680000000000000000000000127280000000000000000000000000000668360000000000000000000000126990000000000000000000000000000667050000000000000000000000126700000000000000000000000000000665740000000000000000000000126410000000000000000000000000000664440000000000000000000000126120000000000000000000000000000663130000000000000000000000125830000000000000000000000000000661840000000000000000000000125540000000000000000000000000000660540000000000000000000000125250000000000000000000000000000659250000000000000000000000124960000000000000000000000000000657960000000000000000000000124670000000000000000000000000000656680000000000000000000000124390000000000000000000000000000655400000000000000000000000124100000000000000000000000000000654120000000000000000000000123810000000000000000000000000000652850000000000000000000000123530000000000000000000000000000651580000000000000000000000123240000000000000000000000000000650310000000000000000000000122960000000000000000000000000000649050000000000000000000000122680000000000000000000000000000647790000000000000000000000122400000000000000000000000000000646530000000000000000000000122110000000000000000000000000000645280000000000000000000000121830000000000000000000000000000644030000000000000000000000121550000000000000000000000000000642790000000000000000000000121270000000000000000000000000000641550000000000000000000000120990000000000000000000000000000640310000000000000000000000120720000000000000000000000000000639070000000000000000000000120440000000000000000000000000000637840000000000000000000000120160000000000000000000000000000636610000000000000000000000119880000000000000000000000000000635390000000000000000000000119610000000000000000000000000000634170000000000000000000000119330000000000000000000000000000632950000000000000000000000119060000000000000000000000000000631730000000000000000000000118790000000000000000000000000000630520000000000000000000000118510000000000000000000000000000629320000000000000000000000118240000000000000000000000000000628110000000000000000000000117970000000000000000000000000000626910000000000000000000000117700000000000000000000000000000625710000000000000000000000117420000000000000000000000000000624520000000000000000000000117150000000000000000000000000000623330000000000000000000000116890000000000000000000,
    803780000000000000000000000156600000000000000000000000000000802110000000000000000000000156240000000000000000000000000000800450000000000000000000000155880000000000000000000000000000798790000000000000000000000155530000000000000000000000000000797130000000000000000000000155170000000000000000000000000000795470000000000000000000000154810000000000000000000000000000793820000000000000000000000154450000000000000000000000000000792180000000000000000000000154100000000000000000000000000000790540000000000000000000000153740000000000000000000000000000788900000000000000000000000153390000000000000000000000000000787270000000000000000000000153040000000000000000000000000000785640000000000000000000000152690000000000000000000000000000784020000000000000000000000152330000000000000000000000000000782400000000000000000000000151980000000000000000000000000000780780000000000000000000000151630000000000000000000000000000779170000000000000000000000151290000000000000000000000000000777560000000000000000000000150940000000000000000000000000000775960000000000000000000000150590000000000000000000000000000774360000000000000000000000150240000000000000000000000000000772770000000000000000000000149900000000000000000000000000000771180000000000000000000000149550000000000000000000000000000769610000000000000000000000149210000000000000000000000000000768370000000000000000000000148870000000000000000000000000000766440000000000000000000000148520000000000000000000000000000764860000000000000000000000148180000000000000000000000000000763290000000000000000000000147840000000000000000000000000000761720000000000000000000000147500000000000000000000000000000760160000000000000000000000147160000000000000000000000000000758600000000000000000000000146820000000000000000000000000000757050000000000000000000000146480000000000000000000000000000755500000000000000000000000146150000000000000000000000000000753950000000000000000000000145810000000000000000000000000000752410000000000000000000000145480000000000000000000000000000750870000000000000000000000145140000000000000000000000000000749340000000000000000000000144810000000000000000000000000000747810000000000000000000000144470000000000000000000000000000746290000000000000000000000144140000000000000000000000000000744760000000000000000000000143810000000000000000000000000000743250000000000000000000000143480000000000000000000000000000741730000000000000000000000143150000000000000000000000000000740220000000000000000000000142820000000000000000000000000000738720000000000000000000000142490000000000000000000000000000737220000000000000000000000142160000000000000000000000000000735720000000000000000000000141840000000000000000000000000000734230000000000000000000000141510000000000000000000000000000732740000000000000000000000141180000000000000000000000000000731250000000000000000000000140860000000000000000000000000000729770000000000000000000000140540000000000000000000000000000728290000000000000000000000140210000000000000000000000000000726820000000000000000000000139890000000000000000000000000000725350000000000000000000000139570000000000000000000000000000723880000000000000000000000139250000000000000000000000000000722420000000000000000000000138930000000000000000000000000000720960000000000000000000000138610000000000000000000000000000719510000000000000000000000138290000000000000000000000000000718060000000000000000000000137970000000000000000000000000000716610000000000000000000000137650000000000000000000000000000715170000000000000000000000137340000000000000000000000000000713730000000000000000000000137020000000000000000000000000000712300000000000000000000000136700000000000000000000000000000710870000000000000000000000136390000000000000000000000000000709440000000000000000000000136080000000000000000000000000000708020000000000000000000000135760000000000000000000000000000706600000000000000000000000135450000000000000000000,
    920110000000000000000000000181480000000000000000000000000000918140000000000000000000000181060000000000000000000000000000916180000000000000000000000180640000000000000000000000000000914220000000000000000000000180230000000000000000000000000000912270000000000000000000000179810000000000000000000000000000910330000000000000000000000179400000000000000000000000000000908380000000000000000000000178990000000000000000000000000000906450000000000000000000000178580000000000000000000000000000904520000000000000000000000178160000000000000000000000000000902590000000000000000000000177750000000000000000000000000000900670000000000000000000000177350000000000000000000000000000898750000000000000000000000176940000000000000000000000000000896840000000000000000000000176530000000000000000000000000000894930000000000000000000000176120000000000000000000000000000893030000000000000000000000175720000000000000000000000000000891130000000000000000000000175310000000000000000000000000000889230000000000000000000000174910000000000000000000000000000887350000000000000000000000174510000000000000000000000000000885460000000000000000000000174110000000000000000000000000000883580000000000000000000000173710000000000000000000000000000881710000000000000000000000173310000000000000000000000000000879840000000000000000000000172910000000000000000000000000000877970000000000000000000000172510000000000000000000000000000876110000000000000000000000172110000000000000000000000000000874260000000000000000000000171720000000000000000000000000000872410000000000000000000000171320000000000000000000000000000870560000000000000000000000170930000000000000000000000000000868720000000000000000000000170540000000000000000000000000000866880000000000000000000000170140000000000000000000000000000865050000000000000000000000169750000000000000000000000000000863220000000000000000000000169360000000000000000000000000000861400000000000000000000000168970000000000000000000000000000859580000000000000000000000168580000000000000000000000000000857770000000000000000000000168190000000000000000000000000000855960000000000000000000000167810000000000000000000000000000854160000000000000000000000167420000000000000000000000000000852360000000000000000000000167040000000000000000000000000000850560000000000000000000000166650000000000000000000000000000848770000000000000000000000166270000000000000000000000000000846980000000000000000000000165890000000000000000000000000000845200000000000000000000000165500000000000000000000000000000843430000000000000000000000165120000000000000000000000000000841650000000000000000000000164740000000000000000000000000000839890000000000000000000000164360000000000000000000000000000838120000000000000000000000163990000000000000000000000000000836360000000000000000000000163610000000000000000000000000000834610000000000000000000000163230000000000000000000000000000832860000000000000000000000162860000000000000000000000000000831110000000000000000000000162480000000000000000000000000000829370000000000000000000000162110000000000000000000000000000827630000000000000000000000161740000000000000000000000000000825900000000000000000000000161360000000000000000000000000000824180000000000000000000000160990000000000000000000000000000822450000000000000000000000160620000000000000000000000000000820730000000000000000000000160250000000000000000000000000000819020000000000000000000000159880000000000000000000000000000817310000000000000000000000159520000000000000000000000000000815600000000000000000000000159150000000000000000000000000000813900000000000000000000000158780000000000000000000000000000812200000000000000000000000158420000000000000000000000000000810510000000000000000000000158050000000000000000000000000000808820000000000000000000000157690000000000000000000000000000807140000000000000000000000157330000000000000000000000000000805460000000000000000000000156960000000000000000000,
    1056700000000000000000000000210300000000000000000000000000001054400000000000000000000000209820000000000000000000000000001052100000000000000000000000209340000000000000000000000000001049800000000000000000000000208850000000000000000000000000001047500000000000000000000000208370000000000000000000000000001045200000000000000000000000207890000000000000000000000000001042900000000000000000000000207420000000000000000000000000001040700000000000000000000000206940000000000000000000000000001038400000000000000000000000206460000000000000000000000000001036100000000000000000000000205990000000000000000000000000001033900000000000000000000000205510000000000000000000000000001031600000000000000000000000205040000000000000000000000000001029400000000000000000000000204570000000000000000000000000001027200000000000000000000000204100000000000000000000000000001024900000000000000000000000203630000000000000000000000000001022700000000000000000000000203160000000000000000000000000001020500000000000000000000000202690000000000000000000000000001018300000000000000000000000202230000000000000000000000000001016100000000000000000000000201760000000000000000000000000001013900000000000000000000000201300000000000000000000000000001011700000000000000000000000200830000000000000000000000000001009500000000000000000000000200370000000000000000000000000001007300000000000000000000000199910000000000000000000000000001005100000000000000000000000199450000000000000000000000000001002900000000000000000000000198990000000000000000000000000001001100000000000000000000000198530000000000000000000000000000998570000000000000000000000198080000000000000000000000000000996410000000000000000000000197620000000000000000000000000000994260000000000000000000000197170000000000000000000000000000992110000000000000000000000196710000000000000000000000000000989960000000000000000000000196260000000000000000000000000000987820000000000000000000000195810000000000000000000000000000985690000000000000000000000195360000000000000000000000000000983560000000000000000000000194910000000000000000000000000000981430000000000000000000000194460000000000000000000000000000979310000000000000000000000194010000000000000000000000000000977200000000000000000000000193570000000000000000000000000000975090000000000000000000000193120000000000000000000000000000972990000000000000000000000192680000000000000000000000000000970890000000000000000000000192230000000000000000000000000000968800000000000000000000000191790000000000000000000000000000966710000000000000000000000191350000000000000000000000000000964630000000000000000000000190910000000000000000000000000000962550000000000000000000000190470000000000000000000000000000960480000000000000000000000190030000000000000000000000000000958410000000000000000000000189600000000000000000000000000000956350000000000000000000000189160000000000000000000000000000954290000000000000000000000188720000000000000000000000000000952240000000000000000000000188290000000000000000000000000000950200000000000000000000000187860000000000000000000000000000948160000000000000000000000187430000000000000000000000000000946120000000000000000000000186990000000000000000000000000000944090000000000000000000000186560000000000000000000000000000942060000000000000000000000186130000000000000000000000000000940040000000000000000000000185710000000000000000000000000000938030000000000000000000000185280000000000000000000000000000936010000000000000000000000184850000000000000000000000000000934010000000000000000000000184430000000000000000000000000000932010000000000000000000000184000000000000000000000000000000930010000000000000000000000183580000000000000000000000000000928020000000000000000000000183160000000000000000000000000000926030000000000000000000000182740000000000000000000000000000924050000000000000000000000182320000000000000000000000000000922080000000000000000000000181900000000000000000000,
    1216500000000000000000000000243710000000000000000000000000001213800000000000000000000000243150000000000000000000000000001211100000000000000000000000242590000000000000000000000000001208400000000000000000000000242030000000000000000000000000001205700000000000000000000000241470000000000000000000000000001203100000000000000000000000240920000000000000000000000000001200400000000000000000000000240360000000000000000000000000001197800000000000000000000000239810000000000000000000000000001195100000000000000000000000239260000000000000000000000000001192500000000000000000000000238710000000000000000000000000001189800000000000000000000000238160000000000000000000000000001187200000000000000000000000237610000000000000000000000000001184600000000000000000000000237060000000000000000000000000001182000000000000000000000000236520000000000000000000000000001179400000000000000000000000235970000000000000000000000000001176800000000000000000000000235430000000000000000000000000001174200000000000000000000000234890000000000000000000000000001171600000000000000000000000234350000000000000000000000000001169000000000000000000000000233810000000000000000000000000001166400000000000000000000000233270000000000000000000000000001163800000000000000000000000232730000000000000000000000000001161300000000000000000000000232200000000000000000000000000001158700000000000000000000000231660000000000000000000000000001156200000000000000000000000231130000000000000000000000000001153600000000000000000000000230600000000000000000000000000001151100000000000000000000000230070000000000000000000000000001148500000000000000000000000229540000000000000000000000000001146000000000000000000000000229010000000000000000000000000001143500000000000000000000000228480000000000000000000000000001141000000000000000000000000227960000000000000000000000000001138500000000000000000000000227430000000000000000000000000001136000000000000000000000000226910000000000000000000000000001133500000000000000000000000226390000000000000000000000000001131000000000000000000000000225870000000000000000000000000001128500000000000000000000000225350000000000000000000000000001126000000000000000000000000224830000000000000000000000000001123500000000000000000000000224310000000000000000000000000001121100000000000000000000000223800000000000000000000000000001118600000000000000000000000223280000000000000000000000000001116100000000000000000000000222770000000000000000000000000001113700000000000000000000000222260000000000000000000000000001111300000000000000000000000221740000000000000000000000000001108800000000000000000000000221230000000000000000000000000001106400000000000000000000000220730000000000000000000000000001104000000000000000000000000220220000000000000000000000000001101500000000000000000000000219710000000000000000000000000001099100000000000000000000000219210000000000000000000000000001096700000000000000000000000218700000000000000000000000000001094300000000000000000000000218200000000000000000000000000001091900000000000000000000000217700000000000000000000000000001089500000000000000000000000217190000000000000000000000000001087100000000000000000000000216700000000000000000000000000001084800000000000000000000000216200000000000000000000000000001082400000000000000000000000215700000000000000000000000000001080000000000000000000000000215200000000000000000000000000001077700000000000000000000000214710000000000000000000000000001075300000000000000000000000214210000000000000000000000000001073000000000000000000000000213720000000000000000000000000001070600000000000000000000000213230000000000000000000000000001068300000000000000000000000212740000000000000000000000000001065900000000000000000000000212250000000000000000000000000001063600000000000000000000000211760000000000000000000000000001061300000000000000000000000211270000000000000000000000000001059000000000000000000000000210790000000000000000000,
    1403000000000000000000000000282410000000000000000000000000001399800000000000000000000000281760000000000000000000000000001396700000000000000000000000281120000000000000000000000000001393600000000000000000000000280470000000000000000000000000001390400000000000000000000000279820000000000000000000000000001387300000000000000000000000279180000000000000000000000000001384200000000000000000000000278540000000000000000000000000001381100000000000000000000000277900000000000000000000000000001378100000000000000000000000277260000000000000000000000000001375000000000000000000000000276620000000000000000000000000001371900000000000000000000000275980000000000000000000000000001368800000000000000000000000275350000000000000000000000000001365800000000000000000000000274720000000000000000000000000001362700000000000000000000000274080000000000000000000000000001359700000000000000000000000273450000000000000000000000000001356600000000000000000000000272820000000000000000000000000001353600000000000000000000000272200000000000000000000000000001350600000000000000000000000271570000000000000000000000000001347600000000000000000000000270950000000000000000000000000001344600000000000000000000000270320000000000000000000000000001341600000000000000000000000269700000000000000000000000000001338600000000000000000000000269080000000000000000000000000001335600000000000000000000000268460000000000000000000000000001332600000000000000000000000267840000000000000000000000000001329600000000000000000000000267230000000000000000000000000001326700000000000000000000000266610000000000000000000000000001323700000000000000000000000266000000000000000000000000000001320800000000000000000000000265390000000000000000000000000001317800000000000000000000000264780000000000000000000000000001314900000000000000000000000264170000000000000000000000000001312000000000000000000000000263560000000000000000000000000001309000000000000000000000000262950000000000000000000000000001306100000000000000000000000262350000000000000000000000000001303200000000000000000000000261740000000000000000000000000001300300000000000000000000000261140000000000000000000000000001297400000000000000000000000260540000000000000000000000000001294500000000000000000000000259940000000000000000000000000001291700000000000000000000000259340000000000000000000000000001288800000000000000000000000258750000000000000000000000000001285900000000000000000000000258150000000000000000000000000001283100000000000000000000000257560000000000000000000000000001280200000000000000000000000256960000000000000000000000000001277400000000000000000000000256370000000000000000000000000001274500000000000000000000000255780000000000000000000000000001271700000000000000000000000255200000000000000000000000000001268900000000000000000000000254610000000000000000000000000001266100000000000000000000000254020000000000000000000000000001263200000000000000000000000253440000000000000000000000000001260400000000000000000000000252850000000000000000000000000001257600000000000000000000000252270000000000000000000000000001254800000000000000000000000251690000000000000000000000000001252100000000000000000000000251110000000000000000000000000001249300000000000000000000000250540000000000000000000000000001246500000000000000000000000249960000000000000000000000000001243700000000000000000000000249380000000000000000000000000001241000000000000000000000000248810000000000000000000000000001238400000000000000000000000248240000000000000000000000000001235500000000000000000000000247670000000000000000000000000001232800000000000000000000000247100000000000000000000000000001230000000000000000000000000246530000000000000000000000000001227300000000000000000000000245960000000000000000000000000001224600000000000000000000000245400000000000000000000000000001221900000000000000000000000244830000000000000000000000000001219200000000000000000000000244270000000000000000000,
    1620300000000000000000000000327270000000000000000000000000001616600000000000000000000000326520000000000000000000000000001613000000000000000000000000325770000000000000000000000000001609300000000000000000000000325020000000000000000000000000001605700000000000000000000000324270000000000000000000000000001602100000000000000000000000323520000000000000000000000000001598500000000000000000000000322780000000000000000000000000001594900000000000000000000000322040000000000000000000000000001591300000000000000000000000321300000000000000000000000000001587700000000000000000000000320560000000000000000000000000001584100000000000000000000000319820000000000000000000000000001580500000000000000000000000319080000000000000000000000000001577000000000000000000000000318350000000000000000000000000001573400000000000000000000000317620000000000000000000000000001569900000000000000000000000316890000000000000000000000000001566300000000000000000000000316160000000000000000000000000001562800000000000000000000000315430000000000000000000000000001559300000000000000000000000314700000000000000000000000000001555800000000000000000000000313980000000000000000000000000001552300000000000000000000000313260000000000000000000000000001548800000000000000000000000312540000000000000000000000000001545300000000000000000000000311820000000000000000000000000001541800000000000000000000000311100000000000000000000000000001538300000000000000000000000310390000000000000000000000000001534900000000000000000000000309670000000000000000000000000001531400000000000000000000000308960000000000000000000000000001528000000000000000000000000308250000000000000000000000000001524500000000000000000000000307540000000000000000000000000001521100000000000000000000000306830000000000000000000000000001517700000000000000000000000306130000000000000000000000000001514300000000000000000000000305420000000000000000000000000001510900000000000000000000000304720000000000000000000000000001507500000000000000000000000304020000000000000000000000000001504100000000000000000000000303320000000000000000000000000001500700000000000000000000000302620000000000000000000000000001497300000000000000000000000301920000000000000000000000000001494000000000000000000000000301230000000000000000000000000001490600000000000000000000000300540000000000000000000000000001487300000000000000000000000299840000000000000000000000000001483900000000000000000000000299150000000000000000000000000001480600000000000000000000000298470000000000000000000000000001477300000000000000000000000297780000000000000000000000000001474000000000000000000000000297090000000000000000000000000001470600000000000000000000000296410000000000000000000000000001467300000000000000000000000295730000000000000000000000000001464100000000000000000000000295050000000000000000000000000001460800000000000000000000000294370000000000000000000000000001457500000000000000000000000293690000000000000000000000000001454200000000000000000000000293020000000000000000000000000001451000000000000000000000000292340000000000000000000000000001447700000000000000000000000291670000000000000000000000000001444500000000000000000000000291000000000000000000000000000001441200000000000000000000000290330000000000000000000000000001438000000000000000000000000289660000000000000000000000000001434800000000000000000000000289000000000000000000000000000001431600000000000000000000000288330000000000000000000000000001428300000000000000000000000287670000000000000000000000000001425100000000000000000000000287010000000000000000000000000001422000000000000000000000000286340000000000000000000000000001418800000000000000000000000285690000000000000000000000000001415600000000000000000000000285030000000000000000000000000001412400000000000000000000000284370000000000000000000000000001409300000000000000000000000283720000000000000000000000000001406100000000000000000000000283070000000000000000000,
    1873200000000000000000000000379250000000000000000000000000001868900000000000000000000000378380000000000000000000000000001864700000000000000000000000377510000000000000000000000000001860400000000000000000000000376640000000000000000000000000001856200000000000000000000000375780000000000000000000000000001852000000000000000000000000374910000000000000000000000000001847800000000000000000000000374050000000000000000000000000001843600000000000000000000000373190000000000000000000000000001839400000000000000000000000372330000000000000000000000000001835300000000000000000000000371470000000000000000000000000001831100000000000000000000000370620000000000000000000000000001826900000000000000000000000369770000000000000000000000000001822800000000000000000000000368910000000000000000000000000001818700000000000000000000000368070000000000000000000000000001814500000000000000000000000367220000000000000000000000000001810400000000000000000000000366370000000000000000000000000001806300000000000000000000000365530000000000000000000000000001802200000000000000000000000364690000000000000000000000000001798100000000000000000000000363850000000000000000000000000001794100000000000000000000000363010000000000000000000000000001790000000000000000000000000362180000000000000000000000000001785900000000000000000000000361350000000000000000000000000001781900000000000000000000000360510000000000000000000000000001777800000000000000000000000359680000000000000000000000000001773800000000000000000000000358860000000000000000000000000001769800000000000000000000000358030000000000000000000000000001765800000000000000000000000357210000000000000000000000000001761800000000000000000000000356390000000000000000000000000001757800000000000000000000000355570000000000000000000000000001753800000000000000000000000354750000000000000000000000000001749900000000000000000000000353930000000000000000000000000001745900000000000000000000000353120000000000000000000000000001741900000000000000000000000352310000000000000000000000000001738000000000000000000000000351490000000000000000000000000001734100000000000000000000000350690000000000000000000000000001730100000000000000000000000349880000000000000000000000000001726200000000000000000000000349070000000000000000000000000001722300000000000000000000000348270000000000000000000000000001722500000000000000000000000347470000000000000000000000000001714500000000000000000000000346670000000000000000000000000001710600000000000000000000000345870000000000000000000000000001706800000000000000000000000345080000000000000000000000000001702900000000000000000000000344280000000000000000000000000001699100000000000000000000000343490000000000000000000000000001695200000000000000000000000342700000000000000000000000000001691400000000000000000000000341910000000000000000000000000001687600000000000000000000000341130000000000000000000000000001683800000000000000000000000340340000000000000000000000000001679900000000000000000000000339560000000000000000000000000001676200000000000000000000000338780000000000000000000000000001672400000000000000000000000338000000000000000000000000000001668600000000000000000000000337220000000000000000000000000001664800000000000000000000000336440000000000000000000000000001661100000000000000000000000335670000000000000000000000000001657300000000000000000000000334900000000000000000000000000001653600000000000000000000000334130000000000000000000000000001649800000000000000000000000333360000000000000000000000000001646100000000000000000000000332590000000000000000000000000001642400000000000000000000000331830000000000000000000000000001638700000000000000000000000331060000000000000000000000000001635000000000000000000000000330300000000000000000000000000001631300000000000000000000000329540000000000000000000000000001627600000000000000000000000328780000000000000000000000000001623900000000000000000000000328030000000000000000000,
    2167300000000000000000000000439490000000000000000000000000002162400000000000000000000000438480000000000000000000000000002157400000000000000000000000437470000000000000000000000000002152500000000000000000000000436470000000000000000000000000002147600000000000000000000000435460000000000000000000000000002142700000000000000000000000434460000000000000000000000000002137800000000000000000000000433460000000000000000000000000002132900000000000000000000000432460000000000000000000000000002128100000000000000000000000431470000000000000000000000000002123200000000000000000000000430480000000000000000000000000002118400000000000000000000000429480000000000000000000000000002113600000000000000000000000428500000000000000000000000000002108700000000000000000000000427510000000000000000000000000002103900000000000000000000000426530000000000000000000000000002099100000000000000000000000425550000000000000000000000000002094300000000000000000000000424570000000000000000000000000002089600000000000000000000000423590000000000000000000000000002084800000000000000000000000422620000000000000000000000000002080100000000000000000000000421640000000000000000000000000002075300000000000000000000000420670000000000000000000000000002070600000000000000000000000419710000000000000000000000000002065900000000000000000000000418740000000000000000000000000002061200000000000000000000000417780000000000000000000000000002056500000000000000000000000416820000000000000000000000000002051800000000000000000000000415860000000000000000000000000002047100000000000000000000000414900000000000000000000000000002042400000000000000000000000413950000000000000000000000000002037800000000000000000000000412990000000000000000000000000002033200000000000000000000000412040000000000000000000000000002028500000000000000000000000411090000000000000000000000000002023900000000000000000000000410150000000000000000000000000002019300000000000000000000000409210000000000000000000000000002014700000000000000000000000408260000000000000000000000000002010100000000000000000000000407320000000000000000000000000002005500000000000000000000000406390000000000000000000000000002001000000000000000000000000405450000000000000000000000000001996400000000000000000000000404520000000000000000000000000001991900000000000000000000000403590000000000000000000000000001987300000000000000000000000402660000000000000000000000000001982800000000000000000000000401730000000000000000000000000001978300000000000000000000000400810000000000000000000000000001973800000000000000000000000399890000000000000000000000000001969300000000000000000000000398970000000000000000000000000001964800000000000000000000000398050000000000000000000000000001960400000000000000000000000397130000000000000000000000000001955900000000000000000000000396220000000000000000000000000001951500000000000000000000000395310000000000000000000000000001947000000000000000000000000394400000000000000000000000000001942600000000000000000000000393490000000000000000000000000001938200000000000000000000000392590000000000000000000000000001933800000000000000000000000391680000000000000000000000000001929400000000000000000000000390780000000000000000000000000001925000000000000000000000000389880000000000000000000000000001920600000000000000000000000388990000000000000000000000000001916300000000000000000000000388090000000000000000000000000001911900000000000000000000000387200000000000000000000000000001907600000000000000000000000386310000000000000000000000000001903200000000000000000000000385420000000000000000000000000001898900000000000000000000000384530000000000000000000000000001894600000000000000000000000383650000000000000000000000000001890300000000000000000000000382760000000000000000000000000001886000000000000000000000000381880000000000000000000000000001881700000000000000000000000381000000000000000000000000000001877400000000000000000000000380130000000000000000000,
    2463700000000000000000000000500000000000000000000000000000002458000000000000000000000000498850000000000000000000000000002452400000000000000000000000497700000000000000000000000000002446800000000000000000000000496560000000000000000000000000002441200000000000000000000000495410000000000000000000000000002435600000000000000000000000494270000000000000000000000000002430000000000000000000000000493140000000000000000000000000002424500000000000000000000000492000000000000000000000000000002418900000000000000000000000490870000000000000000000000000002413400000000000000000000000489740000000000000000000000000002407900000000000000000000000488610000000000000000000000000002402300000000000000000000000487490000000000000000000000000002396800000000000000000000000486370000000000000000000000000002391400000000000000000000000485250000000000000000000000000002385900000000000000000000000484130000000000000000000000000002380400000000000000000000000483020000000000000000000000000002375000000000000000000000000481910000000000000000000000000002369500000000000000000000000480800000000000000000000000000002364100000000000000000000000479690000000000000000000000000002358700000000000000000000000478590000000000000000000000000002353300000000000000000000000477490000000000000000000000000002347900000000000000000000000476390000000000000000000000000002342600000000000000000000000475290000000000000000000000000002337200000000000000000000000474200000000000000000000000000002331900000000000000000000000473110000000000000000000000000002326500000000000000000000000472020000000000000000000000000002321200000000000000000000000470940000000000000000000000000002315900000000000000000000000469850000000000000000000000000002310600000000000000000000000468770000000000000000000000000002305300000000000000000000000467690000000000000000000000000002300100000000000000000000000466620000000000000000000000000002294800000000000000000000000465540000000000000000000000000002289600000000000000000000000464470000000000000000000000000002284300000000000000000000000463400000000000000000000000000002279100000000000000000000000462340000000000000000000000000002273900000000000000000000000461270000000000000000000000000002268700000000000000000000000460210000000000000000000000000002263500000000000000000000000459150000000000000000000000000002258400000000000000000000000458100000000000000000000000000002253200000000000000000000000457040000000000000000000000000002248000000000000000000000000455990000000000000000000000000002242900000000000000000000000454940000000000000000000000000002237800000000000000000000000453900000000000000000000000000002232700000000000000000000000452850000000000000000000000000002227600000000000000000000000451810000000000000000000000000002222500000000000000000000000450770000000000000000000000000002217400000000000000000000000449730000000000000000000000000002212400000000000000000000000448700000000000000000000000000002207300000000000000000000000447670000000000000000000000000002202300000000000000000000000446640000000000000000000000000002197200000000000000000000000445610000000000000000000000000002192200000000000000000000000444580000000000000000000000000002187200000000000000000000000443560000000000000000000000000002182200000000000000000000000442540000000000000000000000000002177200000000000000000000000441520000000000000000000000000002172300000000000000000000000440510000000000000000000]
}
