/// The published table of the O3a noise curve: rows of (frequency * 10^20, amplitude density * 10^44),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {
  pure val CURVE = 5
  pure val ASD = true
  pure val ROWS = 39921
  pure val CHUNKS: List[int] = [
    19489336000000000000000000000001787500000000000000000000000021475691000000000000000000000001775000000000000000000000000022702504000000000000000000000001762500000000000000000000000026576393000000000000000000000001750000000000000000000000000031923366000000000000000000000001737500000000000000000000000038566403000000000000000000000001725000000000000000000000000041682069000000000000000000000001712500000000000000000000000035045927000000000000000000000001700000000000000000000000000038036278000000000000000000000001687500000000000000000000000039234686000000000000000000000001675000000000000000000000000050943510000000000000000000000001662500000000000000000000000056039858000000000000000000000001650000000000000000000000000051879204000000000000000000000001637500000000000000000000000047398112000000000000000000000001625000000000000000000000000043689488000000000000000000000001612500000000000000000000000044467592000000000000000000000001600000000000000000000000000042396354000000000000000000000001587500000000000000000000000047066799000000000000000000000001575000000000000000000000000046349783000000000000000000000001562500000000000000000000000044525753000000000000000000000001550000000000000000000000000044715041000000000000000000000001537500000000000000000000000044914793000000000000000000000001525000000000000000000000000067979365000000000000000000000001512500000000000000000000000083027846000000000000000000000001500000000000000000000000000076602313000000000000000000000001487500000000000000000000000059285964000000000000000000000001475000000000000000000000000052863971000000000000000000000001462500000000000000000000000050935628000000000000000000000001450000000000000000000000000080159501000000000000000000000001437500000000000000000000000104106210000000000000000000000001425000000000000000000000000199749800000000000000000000000001412500000000000000000000000425491990000000000000000000000001400000000000000000000000000694905460000000000000000000000001387500000000000000000000001357744500000000000000000000000001375000000000000000000000001244368300000000000000000000000001362500000000000000000000000690025060000000000000000000000001350000000000000000000000000500476100000000000000000000000001337500000000000000000000000429723510000000000000000000000001325000000000000000000000000345077130000000000000000000000001312500000000000000000000000347708180000000000000000000000001300000000000000000000000000354893540000000000000000000000001287500000000000000000000000392499400000000000000000000000001275000000000000000000000000397363210000000000000000000000001262500000000000000000000000395928120000000000000000000000001250000000000000000000000000441395710000000000000000000000001237500000000000000000000000451569990000000000000000000000001225000000000000000000000000513029060000000000000000000000001212500000000000000000000000546450440000000000000000000000001200000000000000000000000000645694520000000000000000000000001187500000000000000000000000744702020000000000000000000000001175000000000000000000000000728430100000000000000000000000001162500000000000000000000000712351200000000000000000000000001150000000000000000000000000764499620000000000000000000000001137500000000000000000000000761165460000000000000000000000001125000000000000000000000000977740280000000000000000000000001112500000000000000000000001216617600000000000000000000000001100000000000000000000000001353212000000000000000000000000001087500000000000000000000001434994000000000000000000000000001075000000000000000000000001389689100000000000000000000000001062500000000000000000000001311448800000000000000000000000001050000000000000000000000001363173000000000000000000000000001037500000000000000000000001623878900000000000000000000000001025000000000000000000000002375899400000000000000000000000001012500000000000000000000002473311800000000000000000000000001000000000000000000000,
    2822854000000000000000000000002587500000000000000000000000002651590500000000000000000000002575000000000000000000000000002724253900000000000000000000002562500000000000000000000000002748860100000000000000000000002550000000000000000000000000002830657000000000000000000000002537500000000000000000000000003030072900000000000000000000002525000000000000000000000000002890196200000000000000000000002512500000000000000000000000002890181400000000000000000000002500000000000000000000000000003043003300000000000000000000002487500000000000000000000000003246965900000000000000000000002475000000000000000000000000003227941300000000000000000000002462500000000000000000000000003064937200000000000000000000002450000000000000000000000000003002991400000000000000000000002437500000000000000000000000003423950200000000000000000000002425000000000000000000000000003657518400000000000000000000002412500000000000000000000000003784594500000000000000000000002400000000000000000000000000003780790600000000000000000000002387500000000000000000000000003434496500000000000000000000002375000000000000000000000000003597835100000000000000000000002362500000000000000000000000003683750600000000000000000000002350000000000000000000000000003807333800000000000000000000002337500000000000000000000000003880140900000000000000000000002325000000000000000000000000003805159600000000000000000000002312500000000000000000000000003962410500000000000000000000002300000000000000000000000000004095115400000000000000000000002287500000000000000000000000004202783700000000000000000000002275000000000000000000000000004241671200000000000000000000002262500000000000000000000000003888200000000000000000000000002250000000000000000000000000004339065300000000000000000000002237500000000000000000000000004007648400000000000000000000002225000000000000000000000000004446194300000000000000000000002212500000000000000000000000004706680600000000000000000000002200000000000000000000000000004847093100000000000000000000002187500000000000000000000000005020007600000000000000000000002175000000000000000000000000004769398700000000000000000000002162500000000000000000000000005024343800000000000000000000002150000000000000000000000000005487570000000000000000000000002137500000000000000000000000005299525300000000000000000000002125000000000000000000000000005762020800000000000000000000002112500000000000000000000000006062703400000000000000000000002100000000000000000000000000006254747100000000000000000000002087500000000000000000000000006334604200000000000000000000002075000000000000000000000000006728003300000000000000000000002062500000000000000000000000006908936100000000000000000000002050000000000000000000000000007195392800000000000000000000002037500000000000000000000000007606509300000000000000000000002025000000000000000000000000009969526700000000000000000000002012500000000000000000000000010794687000000000000000000000002000000000000000000000000000009877250000000000000000000000001987500000000000000000000000009829287900000000000000000000001975000000000000000000000000009365592800000000000000000000001962500000000000000000000000009804507600000000000000000000001950000000000000000000000000010068282000000000000000000000001937500000000000000000000000010704688000000000000000000000001925000000000000000000000000011334426000000000000000000000001912500000000000000000000000011759664000000000000000000000001900000000000000000000000000012669634000000000000000000000001887500000000000000000000000013372669000000000000000000000001875000000000000000000000000013766686000000000000000000000001862500000000000000000000000014303670000000000000000000000001850000000000000000000000000015907069000000000000000000000001837500000000000000000000000016146522000000000000000000000001825000000000000000000000000015331500000000000000000000000001812500000000000000000000000017014558000000000000000000000001800000000000000000000,
    1468241900000000000000000000003387500000000000000000000000001417328300000000000000000000003375000000000000000000000000001440627200000000000000000000003362500000000000000000000000001386538900000000000000000000003350000000000000000000000000001375637200000000000000000000003337500000000000000000000000001538485900000000000000000000003325000000000000000000000000001593368000000000000000000000003312500000000000000000000000001532569100000000000000000000003300000000000000000000000000001781197400000000000000000000003287500000000000000000000000001568091700000000000000000000003275000000000000000000000000001514046200000000000000000000003262500000000000000000000000001643613100000000000000000000003250000000000000000000000000001632701700000000000000000000003237500000000000000000000000001605599000000000000000000000003225000000000000000000000000001562072200000000000000000000003212500000000000000000000000001568417500000000000000000000003200000000000000000000000000001719336900000000000000000000003187500000000000000000000000001750394500000000000000000000003175000000000000000000000000001870038600000000000000000000003162500000000000000000000000001850150400000000000000000000003150000000000000000000000000001677555900000000000000000000003137500000000000000000000000001633541900000000000000000000003125000000000000000000000000001799983800000000000000000000003112500000000000000000000000001951030800000000000000000000003100000000000000000000000000001954638800000000000000000000003087500000000000000000000000001984093800000000000000000000003075000000000000000000000000002065537200000000000000000000003062500000000000000000000000002127535400000000000000000000003050000000000000000000000000002141419200000000000000000000003037500000000000000000000000002011088700000000000000000000003025000000000000000000000000002081390900000000000000000000003012500000000000000000000000002036467900000000000000000000003000000000000000000000000000002152963500000000000000000000002987500000000000000000000000002076542200000000000000000000002975000000000000000000000000002364511700000000000000000000002962500000000000000000000000002369935700000000000000000000002950000000000000000000000000002297219600000000000000000000002937500000000000000000000000002341352900000000000000000000002925000000000000000000000000002257678500000000000000000000002912500000000000000000000000002309407700000000000000000000002900000000000000000000000000002115731000000000000000000000002887500000000000000000000000002210330800000000000000000000002875000000000000000000000000002410681500000000000000000000002862500000000000000000000000002557593000000000000000000000002850000000000000000000000000002657066700000000000000000000002837500000000000000000000000002540388500000000000000000000002825000000000000000000000000002596717400000000000000000000002812500000000000000000000000002625571500000000000000000000002800000000000000000000000000002570702500000000000000000000002787500000000000000000000000002558008400000000000000000000002775000000000000000000000000002738867600000000000000000000002762500000000000000000000000003190807700000000000000000000002750000000000000000000000000002955646800000000000000000000002737500000000000000000000000002760500300000000000000000000002725000000000000000000000000002743702600000000000000000000002712500000000000000000000000002611177300000000000000000000002700000000000000000000000000002817503200000000000000000000002687500000000000000000000000002785028400000000000000000000002675000000000000000000000000002823523300000000000000000000002662500000000000000000000000002931672500000000000000000000002650000000000000000000000000002726296500000000000000000000002637500000000000000000000000002950258700000000000000000000002625000000000000000000000000002846365000000000000000000000002612500000000000000000000000002760957800000000000000000000002600000000000000000000,
    955254630000000000000000000004187500000000000000000000000000928924890000000000000000000004175000000000000000000000000000963767210000000000000000000004162500000000000000000000000000957992330000000000000000000004150000000000000000000000000000955542960000000000000000000004137500000000000000000000000001010047900000000000000000000004125000000000000000000000000001064431600000000000000000000004112500000000000000000000000001127560700000000000000000000004100000000000000000000000000001320438900000000000000000000004087500000000000000000000000001132086700000000000000000000004075000000000000000000000000001092149100000000000000000000004062500000000000000000000000001001901500000000000000000000004050000000000000000000000000000900599920000000000000000000004037500000000000000000000000000937868350000000000000000000004025000000000000000000000000000957289490000000000000000000004012500000000000000000000000000975429210000000000000000000004000000000000000000000000000001076394000000000000000000000003987500000000000000000000000001028677000000000000000000000003975000000000000000000000000001008220300000000000000000000003962500000000000000000000000001066918600000000000000000000003950000000000000000000000000001038951800000000000000000000003937500000000000000000000000000984531640000000000000000000003925000000000000000000000000001044343300000000000000000000003912500000000000000000000000000968448910000000000000000000003900000000000000000000000000000999816580000000000000000000003887500000000000000000000000001001602500000000000000000000003875000000000000000000000000000992940690000000000000000000003862500000000000000000000000000998506100000000000000000000003850000000000000000000000000000991709860000000000000000000003837500000000000000000000000001056986800000000000000000000003825000000000000000000000000001012569700000000000000000000003812500000000000000000000000001066272800000000000000000000003800000000000000000000000000001154512100000000000000000000003787500000000000000000000000001216839900000000000000000000003775000000000000000000000000001127238700000000000000000000003762500000000000000000000000001077848800000000000000000000003750000000000000000000000000001186649900000000000000000000003737500000000000000000000000001244112800000000000000000000003725000000000000000000000000001147667000000000000000000000003712500000000000000000000000001114696800000000000000000000003700000000000000000000000000001205599100000000000000000000003687500000000000000000000000001250428100000000000000000000003675000000000000000000000000001231764000000000000000000000003662500000000000000000000000001234433200000000000000000000003650000000000000000000000000001225785000000000000000000000003637500000000000000000000000001242427900000000000000000000003625000000000000000000000000001194098700000000000000000000003612500000000000000000000000001191225900000000000000000000003600000000000000000000000000001239407600000000000000000000003587500000000000000000000000001215090900000000000000000000003575000000000000000000000000001225907500000000000000000000003562500000000000000000000000001289441200000000000000000000003550000000000000000000000000001182981100000000000000000000003537500000000000000000000000001119621700000000000000000000003525000000000000000000000000001297560100000000000000000000003512500000000000000000000000001288134000000000000000000000003500000000000000000000000000001285420800000000000000000000003487500000000000000000000000001273361500000000000000000000003475000000000000000000000000001329712000000000000000000000003462500000000000000000000000001376733400000000000000000000003450000000000000000000000000001307278700000000000000000000003437500000000000000000000000001316438700000000000000000000003425000000000000000000000000001299564800000000000000000000003412500000000000000000000000001428420700000000000000000000003400000000000000000000,
    785080650000000000000000000004987500000000000000000000000000779378930000000000000000000004975000000000000000000000000000735032250000000000000000000004962500000000000000000000000000787500980000000000000000000004950000000000000000000000000000810825910000000000000000000004937500000000000000000000000000790065480000000000000000000004925000000000000000000000000000756271940000000000000000000004912500000000000000000000000000779452640000000000000000000004900000000000000000000000000000785958160000000000000000000004887500000000000000000000000000769543040000000000000000000004875000000000000000000000000000857420060000000000000000000004862500000000000000000000000000818895440000000000000000000004850000000000000000000000000000748552100000000000000000000004837500000000000000000000000000759493300000000000000000000004825000000000000000000000000000782422440000000000000000000004812500000000000000000000000000829722420000000000000000000004800000000000000000000000000000833438060000000000000000000004787500000000000000000000000000819104390000000000000000000004775000000000000000000000000000779724190000000000000000000004762500000000000000000000000000748068280000000000000000000004750000000000000000000000000000748980940000000000000000000004737500000000000000000000000000813615130000000000000000000004725000000000000000000000000000878721900000000000000000000004712500000000000000000000000000870700460000000000000000000004700000000000000000000000000000877024510000000000000000000004687500000000000000000000000000859133610000000000000000000004675000000000000000000000000000857099340000000000000000000004662500000000000000000000000000842019550000000000000000000004650000000000000000000000000000857246640000000000000000000004637500000000000000000000000000846542580000000000000000000004625000000000000000000000000000862970150000000000000000000004612500000000000000000000000000809130470000000000000000000004600000000000000000000000000000848271230000000000000000000004587500000000000000000000000000852109240000000000000000000004575000000000000000000000000000892100130000000000000000000004562500000000000000000000000000878634180000000000000000000004550000000000000000000000000000891085650000000000000000000004537500000000000000000000000000880746270000000000000000000004525000000000000000000000000000898753190000000000000000000004512500000000000000000000000000885962830000000000000000000004500000000000000000000000000000819049700000000000000000000004487500000000000000000000000000816712060000000000000000000004475000000000000000000000000000913769510000000000000000000004462500000000000000000000000000979536210000000000000000000004450000000000000000000000000000848549670000000000000000000004437500000000000000000000000000819682300000000000000000000004425000000000000000000000000000825364210000000000000000000004412500000000000000000000000000793380080000000000000000000004400000000000000000000000000000849399380000000000000000000004387500000000000000000000000000883646110000000000000000000004375000000000000000000000000000809466320000000000000000000004362500000000000000000000000000868418790000000000000000000004350000000000000000000000000000898500690000000000000000000004337500000000000000000000000000856838490000000000000000000004325000000000000000000000000000889309100000000000000000000004312500000000000000000000000000982560570000000000000000000004300000000000000000000000000000890678180000000000000000000004287500000000000000000000000000822866160000000000000000000004275000000000000000000000000000931316870000000000000000000004262500000000000000000000000000947748850000000000000000000004250000000000000000000000000000927399350000000000000000000004237500000000000000000000000000946854940000000000000000000004225000000000000000000000000000936037080000000000000000000004212500000000000000000000000000906458470000000000000000000004200000000000000000000,
    691932440000000000000000000005787500000000000000000000000000807219460000000000000000000005775000000000000000000000000000759643610000000000000000000005762500000000000000000000000000676511660000000000000000000005750000000000000000000000000000743610880000000000000000000005737500000000000000000000000000678331100000000000000000000005725000000000000000000000000000646350410000000000000000000005712500000000000000000000000000662379180000000000000000000005700000000000000000000000000000646689480000000000000000000005687500000000000000000000000000694696610000000000000000000005675000000000000000000000000000690257040000000000000000000005662500000000000000000000000000675315120000000000000000000005650000000000000000000000000000679868980000000000000000000005637500000000000000000000000000721496060000000000000000000005625000000000000000000000000000730861360000000000000000000005612500000000000000000000000000751695930000000000000000000005600000000000000000000000000000741917380000000000000000000005587500000000000000000000000000725408320000000000000000000005575000000000000000000000000000713211150000000000000000000005562500000000000000000000000000704942560000000000000000000005550000000000000000000000000000659984300000000000000000000005537500000000000000000000000000691210940000000000000000000005525000000000000000000000000000697236840000000000000000000005512500000000000000000000000000699720520000000000000000000005500000000000000000000000000000739359080000000000000000000005487500000000000000000000000000665989540000000000000000000005475000000000000000000000000000655918680000000000000000000005462500000000000000000000000000709565020000000000000000000005450000000000000000000000000000659676180000000000000000000005437500000000000000000000000000654971260000000000000000000005425000000000000000000000000000675082330000000000000000000005412500000000000000000000000000658640670000000000000000000005400000000000000000000000000000652882690000000000000000000005387500000000000000000000000000664458720000000000000000000005375000000000000000000000000000672007210000000000000000000005362500000000000000000000000000738500500000000000000000000005350000000000000000000000000000734054270000000000000000000005337500000000000000000000000000776664420000000000000000000005325000000000000000000000000000713074650000000000000000000005312500000000000000000000000000693252480000000000000000000005300000000000000000000000000000705293790000000000000000000005287500000000000000000000000000657600120000000000000000000005275000000000000000000000000000680785740000000000000000000005262500000000000000000000000000691334260000000000000000000005250000000000000000000000000000730903990000000000000000000005237500000000000000000000000000736874110000000000000000000005225000000000000000000000000000669196710000000000000000000005212500000000000000000000000000666745450000000000000000000005200000000000000000000000000000726077720000000000000000000005187500000000000000000000000000708718430000000000000000000005175000000000000000000000000000750036070000000000000000000005162500000000000000000000000000698786410000000000000000000005150000000000000000000000000000749186250000000000000000000005137500000000000000000000000000777402240000000000000000000005125000000000000000000000000000738122420000000000000000000005112500000000000000000000000000818573190000000000000000000005100000000000000000000000000000818477380000000000000000000005087500000000000000000000000000749418170000000000000000000005075000000000000000000000000000801254890000000000000000000005062500000000000000000000000000765628340000000000000000000005050000000000000000000000000000753886270000000000000000000005037500000000000000000000000000769984320000000000000000000005025000000000000000000000000000777141250000000000000000000005012500000000000000000000000000772656730000000000000000000005000000000000000000000,
    586249430000000000000000000006587500000000000000000000000000584808300000000000000000000006575000000000000000000000000000561424500000000000000000000006562500000000000000000000000000526445980000000000000000000006550000000000000000000000000000548019710000000000000000000006537500000000000000000000000000606150000000000000000000000006525000000000000000000000000000587138840000000000000000000006512500000000000000000000000000537733070000000000000000000006500000000000000000000000000000577717570000000000000000000006487500000000000000000000000000563530560000000000000000000006475000000000000000000000000000557257540000000000000000000006462500000000000000000000000000586726720000000000000000000006450000000000000000000000000000596796490000000000000000000006437500000000000000000000000000615048060000000000000000000006425000000000000000000000000000579978880000000000000000000006412500000000000000000000000000587434570000000000000000000006400000000000000000000000000000579555620000000000000000000006387500000000000000000000000000565099770000000000000000000006375000000000000000000000000000594140030000000000000000000006362500000000000000000000000000558256830000000000000000000006350000000000000000000000000000506600390000000000000000000006337500000000000000000000000000542504560000000000000000000006325000000000000000000000000000583456400000000000000000000006312500000000000000000000000000589766390000000000000000000006300000000000000000000000000000571049110000000000000000000006287500000000000000000000000000583930910000000000000000000006275000000000000000000000000000608473410000000000000000000006262500000000000000000000000000605359190000000000000000000006250000000000000000000000000000559486080000000000000000000006237500000000000000000000000000549473710000000000000000000006225000000000000000000000000000560864140000000000000000000006212500000000000000000000000000510506320000000000000000000006200000000000000000000000000000524676310000000000000000000006187500000000000000000000000000584193730000000000000000000006175000000000000000000000000000641157090000000000000000000006162500000000000000000000000000627525450000000000000000000006150000000000000000000000000000600610600000000000000000000006137500000000000000000000000000629571150000000000000000000006125000000000000000000000000000645761450000000000000000000006112500000000000000000000000000648892790000000000000000000006100000000000000000000000000000629465230000000000000000000006087500000000000000000000000000649263430000000000000000000006075000000000000000000000000000598494510000000000000000000006062500000000000000000000000000665490490000000000000000000006050000000000000000000000000000674257950000000000000000000006037500000000000000000000000000653400250000000000000000000006025000000000000000000000000000830928110000000000000000000006012500000000000000000000000001171519600000000000000000000006000000000000000000000000000000822983890000000000000000000005987500000000000000000000000000749891070000000000000000000005975000000000000000000000000000803968100000000000000000000005962500000000000000000000000000711560380000000000000000000005950000000000000000000000000000693452740000000000000000000005937500000000000000000000000000810040280000000000000000000005925000000000000000000000000000839777180000000000000000000005912500000000000000000000000000817805800000000000000000000005900000000000000000000000000000803310350000000000000000000005887500000000000000000000000000698406560000000000000000000005875000000000000000000000000000686486190000000000000000000005862500000000000000000000000000787953390000000000000000000005850000000000000000000000000000781245330000000000000000000005837500000000000000000000000000792057100000000000000000000005825000000000000000000000000000789493010000000000000000000005812500000000000000000000000000736492420000000000000000000005800000000000000000000,
    550619970000000000000000000007387500000000000000000000000000514311060000000000000000000007375000000000000000000000000000505665830000000000000000000007362500000000000000000000000000525928270000000000000000000007350000000000000000000000000000528533590000000000000000000007337500000000000000000000000000533111460000000000000000000007325000000000000000000000000000539078140000000000000000000007312500000000000000000000000000537545230000000000000000000007300000000000000000000000000000533989460000000000000000000007287500000000000000000000000000593453610000000000000000000007275000000000000000000000000000614705980000000000000000000007262500000000000000000000000000588512410000000000000000000007250000000000000000000000000000653457200000000000000000000007237500000000000000000000000000655919000000000000000000000007225000000000000000000000000000643418660000000000000000000007212500000000000000000000000000549817840000000000000000000007200000000000000000000000000000530202550000000000000000000007187500000000000000000000000000583410150000000000000000000007175000000000000000000000000000628406930000000000000000000007162500000000000000000000000000699149290000000000000000000007150000000000000000000000000000750630580000000000000000000007137500000000000000000000000000769794150000000000000000000007125000000000000000000000000000813364040000000000000000000007112500000000000000000000000000855241180000000000000000000007100000000000000000000000000000901274800000000000000000000007087500000000000000000000000000843533280000000000000000000007075000000000000000000000000000946140710000000000000000000007062500000000000000000000000000977813540000000000000000000007050000000000000000000000000000896778510000000000000000000007037500000000000000000000000000894598660000000000000000000007025000000000000000000000000000846493480000000000000000000007012500000000000000000000000000894815890000000000000000000007000000000000000000000000000000863907000000000000000000000006987500000000000000000000000000817001770000000000000000000006975000000000000000000000000000816946850000000000000000000006962500000000000000000000000000778924730000000000000000000006950000000000000000000000000000732455650000000000000000000006937500000000000000000000000000633782330000000000000000000006925000000000000000000000000000566425160000000000000000000006912500000000000000000000000000557634700000000000000000000006900000000000000000000000000000583455260000000000000000000006887500000000000000000000000000605648980000000000000000000006875000000000000000000000000000603120400000000000000000000006862500000000000000000000000000604972070000000000000000000006850000000000000000000000000000613302080000000000000000000006837500000000000000000000000000655309270000000000000000000006825000000000000000000000000000614574120000000000000000000006812500000000000000000000000000587457070000000000000000000006800000000000000000000000000000547267900000000000000000000006787500000000000000000000000000562885520000000000000000000006775000000000000000000000000000586062020000000000000000000006762500000000000000000000000000531268420000000000000000000006750000000000000000000000000000530750740000000000000000000006737500000000000000000000000000581515190000000000000000000006725000000000000000000000000000560090850000000000000000000006712500000000000000000000000000591963860000000000000000000006700000000000000000000000000000596191690000000000000000000006687500000000000000000000000000559829590000000000000000000006675000000000000000000000000000559434920000000000000000000006662500000000000000000000000000562739820000000000000000000006650000000000000000000000000000544724850000000000000000000006637500000000000000000000000000570283360000000000000000000006625000000000000000000000000000525913700000000000000000000006612500000000000000000000000000549740710000000000000000000006600000000000000000000,
    471546470000000000000000000008187500000000000000000000000000473726980000000000000000000008175000000000000000000000000000512888050000000000000000000008162500000000000000000000000000544838930000000000000000000008150000000000000000000000000000546590260000000000000000000008137500000000000000000000000000518565820000000000000000000008125000000000000000000000000000519372900000000000000000000008112500000000000000000000000000503648650000000000000000000008100000000000000000000000000000479166680000000000000000000008087500000000000000000000000000478893630000000000000000000008075000000000000000000000000000507562830000000000000000000008062500000000000000000000000000506425110000000000000000000008050000000000000000000000000000501457310000000000000000000008037500000000000000000000000000525289620000000000000000000008025000000000000000000000000000501853340000000000000000000008012500000000000000000000000000508882780000000000000000000008000000000000000000000000000000477054760000000000000000000007987500000000000000000000000000484651670000000000000000000007975000000000000000000000000000480057460000000000000000000007962500000000000000000000000000453280960000000000000000000007950000000000000000000000000000488735340000000000000000000007937500000000000000000000000000488797310000000000000000000007925000000000000000000000000000485227450000000000000000000007912500000000000000000000000000516815850000000000000000000007900000000000000000000000000000514872320000000000000000000007887500000000000000000000000000467515180000000000000000000007875000000000000000000000000000468824340000000000000000000007862500000000000000000000000000473367910000000000000000000007850000000000000000000000000000551276630000000000000000000007837500000000000000000000000000538960770000000000000000000007825000000000000000000000000000530972430000000000000000000007812500000000000000000000000000535241350000000000000000000007800000000000000000000000000000508093130000000000000000000007787500000000000000000000000000507089230000000000000000000007775000000000000000000000000000497046830000000000000000000007762500000000000000000000000000548334200000000000000000000007750000000000000000000000000000586236020000000000000000000007737500000000000000000000000000555518730000000000000000000007725000000000000000000000000000538645890000000000000000000007712500000000000000000000000000568653130000000000000000000007700000000000000000000000000000499025190000000000000000000007687500000000000000000000000000528963510000000000000000000007675000000000000000000000000000526977570000000000000000000007662500000000000000000000000000522601410000000000000000000007650000000000000000000000000000529645310000000000000000000007637500000000000000000000000000494189400000000000000000000007625000000000000000000000000000526303840000000000000000000007612500000000000000000000000000524684150000000000000000000007600000000000000000000000000000506501570000000000000000000007587500000000000000000000000000517331630000000000000000000007575000000000000000000000000000537236270000000000000000000007562500000000000000000000000000522379370000000000000000000007550000000000000000000000000000541535950000000000000000000007537500000000000000000000000000531940390000000000000000000007525000000000000000000000000000547433290000000000000000000007512500000000000000000000000000569177370000000000000000000007500000000000000000000000000000510854110000000000000000000007487500000000000000000000000000525014450000000000000000000007475000000000000000000000000000530303970000000000000000000007462500000000000000000000000000524019060000000000000000000007450000000000000000000000000000529172170000000000000000000007437500000000000000000000000000523106570000000000000000000007425000000000000000000000000000535006740000000000000000000007412500000000000000000000000000533637740000000000000000000007400000000000000000000,
    490108710000000000000000000008987500000000000000000000000000475354190000000000000000000008975000000000000000000000000000521297720000000000000000000008962500000000000000000000000000552479050000000000000000000008950000000000000000000000000000489632540000000000000000000008937500000000000000000000000000493066430000000000000000000008925000000000000000000000000000512852190000000000000000000008912500000000000000000000000000535617180000000000000000000008900000000000000000000000000000531466640000000000000000000008887500000000000000000000000000522364850000000000000000000008875000000000000000000000000000508017990000000000000000000008862500000000000000000000000000462862780000000000000000000008850000000000000000000000000000506335210000000000000000000008837500000000000000000000000000482254070000000000000000000008825000000000000000000000000000494638070000000000000000000008812500000000000000000000000000555485050000000000000000000008800000000000000000000000000000490068790000000000000000000008787500000000000000000000000000447637910000000000000000000008775000000000000000000000000000469137150000000000000000000008762500000000000000000000000000502458860000000000000000000008750000000000000000000000000000498891580000000000000000000008737500000000000000000000000000525819770000000000000000000008725000000000000000000000000000484407180000000000000000000008712500000000000000000000000000451215910000000000000000000008700000000000000000000000000000499840650000000000000000000008687500000000000000000000000000521303680000000000000000000008675000000000000000000000000000539085840000000000000000000008662500000000000000000000000000533466390000000000000000000008650000000000000000000000000000522002580000000000000000000008637500000000000000000000000000536385660000000000000000000008625000000000000000000000000000542687870000000000000000000008612500000000000000000000000000530067110000000000000000000008600000000000000000000000000000530933910000000000000000000008587500000000000000000000000000500402700000000000000000000008575000000000000000000000000000508142760000000000000000000008562500000000000000000000000000518001570000000000000000000008550000000000000000000000000000519503390000000000000000000008537500000000000000000000000000525492330000000000000000000008525000000000000000000000000000487596420000000000000000000008512500000000000000000000000000500276220000000000000000000008500000000000000000000000000000518109440000000000000000000008487500000000000000000000000000509592360000000000000000000008475000000000000000000000000000502824490000000000000000000008462500000000000000000000000000541668600000000000000000000008450000000000000000000000000000510466220000000000000000000008437500000000000000000000000000529102520000000000000000000008425000000000000000000000000000521862870000000000000000000008412500000000000000000000000000519953310000000000000000000008400000000000000000000000000000518423010000000000000000000008387500000000000000000000000000509937290000000000000000000008375000000000000000000000000000516282680000000000000000000008362500000000000000000000000000542007400000000000000000000008350000000000000000000000000000512802650000000000000000000008337500000000000000000000000000501724190000000000000000000008325000000000000000000000000000489738530000000000000000000008312500000000000000000000000000469533840000000000000000000008300000000000000000000000000000448922300000000000000000000008287500000000000000000000000000475251400000000000000000000008275000000000000000000000000000470064590000000000000000000008262500000000000000000000000000527141050000000000000000000008250000000000000000000000000000501543050000000000000000000008237500000000000000000000000000477905210000000000000000000008225000000000000000000000000000488208030000000000000000000008212500000000000000000000000000477975490000000000000000000008200000000000000000000,
    526521400000000000000000000009787500000000000000000000000000524769180000000000000000000009775000000000000000000000000000479412740000000000000000000009762500000000000000000000000000491862270000000000000000000009750000000000000000000000000000507563240000000000000000000009737500000000000000000000000000483917720000000000000000000009725000000000000000000000000000493463370000000000000000000009712500000000000000000000000000499330100000000000000000000009700000000000000000000000000000455790210000000000000000000009687500000000000000000000000000495016940000000000000000000009675000000000000000000000000000461168290000000000000000000009662500000000000000000000000000484101770000000000000000000009650000000000000000000000000000503419410000000000000000000009637500000000000000000000000000514547220000000000000000000009625000000000000000000000000000520724390000000000000000000009612500000000000000000000000000509296270000000000000000000009600000000000000000000000000000481450060000000000000000000009587500000000000000000000000000485755760000000000000000000009575000000000000000000000000000483000450000000000000000000009562500000000000000000000000000441336460000000000000000000009550000000000000000000000000000471274010000000000000000000009537500000000000000000000000000487518460000000000000000000009525000000000000000000000000000484595420000000000000000000009512500000000000000000000000000483104220000000000000000000009500000000000000000000000000000502278800000000000000000000009487500000000000000000000000000513452050000000000000000000009475000000000000000000000000000496969810000000000000000000009462500000000000000000000000000512832380000000000000000000009450000000000000000000000000000524729020000000000000000000009437500000000000000000000000000502648520000000000000000000009425000000000000000000000000000510774430000000000000000000009412500000000000000000000000000502899890000000000000000000009400000000000000000000000000000474871590000000000000000000009387500000000000000000000000000493349220000000000000000000009375000000000000000000000000000516322880000000000000000000009362500000000000000000000000000482764900000000000000000000009350000000000000000000000000000472557970000000000000000000009337500000000000000000000000000493863240000000000000000000009325000000000000000000000000000503657390000000000000000000009312500000000000000000000000000528482210000000000000000000009300000000000000000000000000000535138410000000000000000000009287500000000000000000000000000483367800000000000000000000009275000000000000000000000000000489697210000000000000000000009262500000000000000000000000000520630170000000000000000000009250000000000000000000000000000490258570000000000000000000009237500000000000000000000000000476628350000000000000000000009225000000000000000000000000000493049050000000000000000000009212500000000000000000000000000474196040000000000000000000009200000000000000000000000000000492971690000000000000000000009187500000000000000000000000000461954640000000000000000000009175000000000000000000000000000454535820000000000000000000009162500000000000000000000000000472232090000000000000000000009150000000000000000000000000000479608420000000000000000000009137500000000000000000000000000479610250000000000000000000009125000000000000000000000000000495481900000000000000000000009112500000000000000000000000000474706580000000000000000000009100000000000000000000000000000456272890000000000000000000009087500000000000000000000000000516830020000000000000000000009075000000000000000000000000000482409470000000000000000000009062500000000000000000000000000467619460000000000000000000009050000000000000000000000000000493576890000000000000000000009037500000000000000000000000000533522600000000000000000000009025000000000000000000000000000507532610000000000000000000009012500000000000000000000000000485639050000000000000000000009000000000000000000000,
    463260110000000000000000000010587500000000000000000000000000455082200000000000000000000010575000000000000000000000000000468746730000000000000000000010562500000000000000000000000000456578320000000000000000000010550000000000000000000000000000486107100000000000000000000010537500000000000000000000000000482674420000000000000000000010525000000000000000000000000000503310310000000000000000000010512500000000000000000000000000472774110000000000000000000010500000000000000000000000000000468464040000000000000000000010487500000000000000000000000000459055960000000000000000000010475000000000000000000000000000469831560000000000000000000010462500000000000000000000000000488875120000000000000000000010450000000000000000000000000000497843630000000000000000000010437500000000000000000000000000499252870000000000000000000010425000000000000000000000000000529539840000000000000000000010412500000000000000000000000000563255190000000000000000000010400000000000000000000000000000511277210000000000000000000010387500000000000000000000000000475870840000000000000000000010375000000000000000000000000000486504270000000000000000000010362500000000000000000000000000469271610000000000000000000010350000000000000000000000000000456013530000000000000000000010337500000000000000000000000000480883840000000000000000000010325000000000000000000000000000439313190000000000000000000010312500000000000000000000000000464212640000000000000000000010300000000000000000000000000000456430620000000000000000000010287500000000000000000000000000479494090000000000000000000010275000000000000000000000000000487611770000000000000000000010262500000000000000000000000000487644010000000000000000000010250000000000000000000000000000487400600000000000000000000010237500000000000000000000000000490355840000000000000000000010225000000000000000000000000000495471630000000000000000000010212500000000000000000000000000480604310000000000000000000010200000000000000000000000000000457154580000000000000000000010187500000000000000000000000000464152800000000000000000000010175000000000000000000000000000487104880000000000000000000010162500000000000000000000000000494531270000000000000000000010150000000000000000000000000000476689580000000000000000000010137500000000000000000000000000464078160000000000000000000010125000000000000000000000000000452626280000000000000000000010112500000000000000000000000000456891100000000000000000000010100000000000000000000000000000447148730000000000000000000010087500000000000000000000000000464035760000000000000000000010075000000000000000000000000000468725350000000000000000000010062500000000000000000000000000483341970000000000000000000010050000000000000000000000000000483575490000000000000000000010037500000000000000000000000000483607180000000000000000000010025000000000000000000000000000454567720000000000000000000010012500000000000000000000000000489854920000000000000000000010000000000000000000000000000000470392260000000000000000000009987500000000000000000000000000471196850000000000000000000009975000000000000000000000000000477287680000000000000000000009962500000000000000000000000000530978390000000000000000000009950000000000000000000000000000497377310000000000000000000009937500000000000000000000000000433921010000000000000000000009925000000000000000000000000000466739170000000000000000000009912500000000000000000000000000469998970000000000000000000009900000000000000000000000000000482488590000000000000000000009887500000000000000000000000000485469520000000000000000000009875000000000000000000000000000512181250000000000000000000009862500000000000000000000000000511619910000000000000000000009850000000000000000000000000000474900480000000000000000000009837500000000000000000000000000454467770000000000000000000009825000000000000000000000000000455875610000000000000000000009812500000000000000000000000000493669470000000000000000000009800000000000000000000,
    481860990000000000000000000011387500000000000000000000000000485442940000000000000000000011375000000000000000000000000000470264580000000000000000000011362500000000000000000000000000477739690000000000000000000011350000000000000000000000000000458205400000000000000000000011337500000000000000000000000000460255620000000000000000000011325000000000000000000000000000505929710000000000000000000011312500000000000000000000000000506188290000000000000000000011300000000000000000000000000000514691550000000000000000000011287500000000000000000000000000481275870000000000000000000011275000000000000000000000000000454788580000000000000000000011262500000000000000000000000000439546850000000000000000000011250000000000000000000000000000460049120000000000000000000011237500000000000000000000000000469452170000000000000000000011225000000000000000000000000000452621210000000000000000000011212500000000000000000000000000449335540000000000000000000011200000000000000000000000000000468444350000000000000000000011187500000000000000000000000000443427950000000000000000000011175000000000000000000000000000465281470000000000000000000011162500000000000000000000000000472353070000000000000000000011150000000000000000000000000000487649190000000000000000000011137500000000000000000000000000468142060000000000000000000011125000000000000000000000000000472471250000000000000000000011112500000000000000000000000000448476610000000000000000000011100000000000000000000000000000485347920000000000000000000011087500000000000000000000000000496924260000000000000000000011075000000000000000000000000000477854960000000000000000000011062500000000000000000000000000447302580000000000000000000011050000000000000000000000000000444537880000000000000000000011037500000000000000000000000000469436420000000000000000000011025000000000000000000000000000465649430000000000000000000011012500000000000000000000000000439523410000000000000000000011000000000000000000000000000000450623370000000000000000000010987500000000000000000000000000485827750000000000000000000010975000000000000000000000000000467991370000000000000000000010962500000000000000000000000000491594930000000000000000000010950000000000000000000000000000484577920000000000000000000010937500000000000000000000000000446307080000000000000000000010925000000000000000000000000000458252330000000000000000000010912500000000000000000000000000477202590000000000000000000010900000000000000000000000000000500493620000000000000000000010887500000000000000000000000000507247560000000000000000000010875000000000000000000000000000446839340000000000000000000010862500000000000000000000000000477189190000000000000000000010850000000000000000000000000000476164730000000000000000000010837500000000000000000000000000447543500000000000000000000010825000000000000000000000000000468844580000000000000000000010812500000000000000000000000000469184690000000000000000000010800000000000000000000000000000430401930000000000000000000010787500000000000000000000000000433496850000000000000000000010775000000000000000000000000000497082810000000000000000000010762500000000000000000000000000541309320000000000000000000010750000000000000000000000000000482335500000000000000000000010737500000000000000000000000000461811790000000000000000000010725000000000000000000000000000469124510000000000000000000010712500000000000000000000000000474966290000000000000000000010700000000000000000000000000000491945900000000000000000000010687500000000000000000000000000470051480000000000000000000010675000000000000000000000000000446156760000000000000000000010662500000000000000000000000000473727890000000000000000000010650000000000000000000000000000513792160000000000000000000010637500000000000000000000000000522809600000000000000000000010625000000000000000000000000000489530710000000000000000000010612500000000000000000000000000455091060000000000000000000010600000000000000000000,
    471612540000000000000000000012187500000000000000000000000000445035550000000000000000000012175000000000000000000000000000435238950000000000000000000012162500000000000000000000000000453150830000000000000000000012150000000000000000000000000000458471080000000000000000000012137500000000000000000000000000458921130000000000000000000012125000000000000000000000000000449597630000000000000000000012112500000000000000000000000000459460410000000000000000000012100000000000000000000000000000470798910000000000000000000012087500000000000000000000000000470605720000000000000000000012075000000000000000000000000000484689670000000000000000000012062500000000000000000000000000471667760000000000000000000012050000000000000000000000000000468192970000000000000000000012037500000000000000000000000000499829160000000000000000000012025000000000000000000000000000508268790000000000000000000012012500000000000000000000000000511376550000000000000000000012000000000000000000000000000000465585760000000000000000000011987500000000000000000000000000451618320000000000000000000011975000000000000000000000000000449610670000000000000000000011962500000000000000000000000000446910610000000000000000000011950000000000000000000000000000461963280000000000000000000011937500000000000000000000000000473523650000000000000000000011925000000000000000000000000000497342730000000000000000000011912500000000000000000000000000477764680000000000000000000011900000000000000000000000000000468445680000000000000000000011887500000000000000000000000000469225630000000000000000000011875000000000000000000000000000468598760000000000000000000011862500000000000000000000000000460941410000000000000000000011850000000000000000000000000000438326040000000000000000000011837500000000000000000000000000487245110000000000000000000011825000000000000000000000000000484197700000000000000000000011812500000000000000000000000000511634610000000000000000000011800000000000000000000000000000528089460000000000000000000011787500000000000000000000000000483026690000000000000000000011775000000000000000000000000000457841130000000000000000000011762500000000000000000000000000471804800000000000000000000011750000000000000000000000000000448115110000000000000000000011737500000000000000000000000000425920000000000000000000000011725000000000000000000000000000463867960000000000000000000011712500000000000000000000000000503811440000000000000000000011700000000000000000000000000000449578400000000000000000000011687500000000000000000000000000458619100000000000000000000011675000000000000000000000000000507881870000000000000000000011662500000000000000000000000000496172360000000000000000000011650000000000000000000000000000475875000000000000000000000011637500000000000000000000000000460249820000000000000000000011625000000000000000000000000000449654100000000000000000000011612500000000000000000000000000494222950000000000000000000011600000000000000000000000000000470766670000000000000000000011587500000000000000000000000000429947940000000000000000000011575000000000000000000000000000459108550000000000000000000011562500000000000000000000000000462176790000000000000000000011550000000000000000000000000000466710150000000000000000000011537500000000000000000000000000456582160000000000000000000011525000000000000000000000000000470903620000000000000000000011512500000000000000000000000000447185340000000000000000000011500000000000000000000000000000488505840000000000000000000011487500000000000000000000000000504531020000000000000000000011475000000000000000000000000000474544250000000000000000000011462500000000000000000000000000447219660000000000000000000011450000000000000000000000000000433756030000000000000000000011437500000000000000000000000000440954410000000000000000000011425000000000000000000000000000501748480000000000000000000011412500000000000000000000000000458810610000000000000000000011400000000000000000000,
    428573530000000000000000000012987500000000000000000000000000423689670000000000000000000012975000000000000000000000000000468737190000000000000000000012962500000000000000000000000000462951640000000000000000000012950000000000000000000000000000466001630000000000000000000012937500000000000000000000000000460724130000000000000000000012925000000000000000000000000000465053810000000000000000000012912500000000000000000000000000480427750000000000000000000012900000000000000000000000000000442616120000000000000000000012887500000000000000000000000000470206400000000000000000000012875000000000000000000000000000456572030000000000000000000012862500000000000000000000000000474692250000000000000000000012850000000000000000000000000000465169480000000000000000000012837500000000000000000000000000484202550000000000000000000012825000000000000000000000000000458306300000000000000000000012812500000000000000000000000000422038440000000000000000000012800000000000000000000000000000447686110000000000000000000012787500000000000000000000000000490655310000000000000000000012775000000000000000000000000000514358280000000000000000000012762500000000000000000000000000490290060000000000000000000012750000000000000000000000000000488845720000000000000000000012737500000000000000000000000000454938110000000000000000000012725000000000000000000000000000442227380000000000000000000012712500000000000000000000000000448056480000000000000000000012700000000000000000000000000000457996280000000000000000000012687500000000000000000000000000445690180000000000000000000012675000000000000000000000000000465635360000000000000000000012662500000000000000000000000000451523030000000000000000000012650000000000000000000000000000458653140000000000000000000012637500000000000000000000000000468045980000000000000000000012625000000000000000000000000000485996130000000000000000000012612500000000000000000000000000465021680000000000000000000012600000000000000000000000000000453696750000000000000000000012587500000000000000000000000000475616750000000000000000000012575000000000000000000000000000484861150000000000000000000012562500000000000000000000000000494644990000000000000000000012550000000000000000000000000000467366830000000000000000000012537500000000000000000000000000447133600000000000000000000012525000000000000000000000000000470227330000000000000000000012512500000000000000000000000000523577750000000000000000000012500000000000000000000000000000509537710000000000000000000012487500000000000000000000000000480771130000000000000000000012475000000000000000000000000000466199570000000000000000000012462500000000000000000000000000456422850000000000000000000012450000000000000000000000000000465121980000000000000000000012437500000000000000000000000000449001760000000000000000000012425000000000000000000000000000420823660000000000000000000012412500000000000000000000000000442808020000000000000000000012400000000000000000000000000000444201750000000000000000000012387500000000000000000000000000413007190000000000000000000012375000000000000000000000000000434654140000000000000000000012362500000000000000000000000000435054040000000000000000000012350000000000000000000000000000432894400000000000000000000012337500000000000000000000000000427298770000000000000000000012325000000000000000000000000000447228800000000000000000000012312500000000000000000000000000471711370000000000000000000012300000000000000000000000000000482785190000000000000000000012287500000000000000000000000000446262870000000000000000000012275000000000000000000000000000451338900000000000000000000012262500000000000000000000000000483108560000000000000000000012250000000000000000000000000000466806070000000000000000000012237500000000000000000000000000489500690000000000000000000012225000000000000000000000000000465655550000000000000000000012212500000000000000000000000000461536130000000000000000000012200000000000000000000,
    477181180000000000000000000013787500000000000000000000000000499300300000000000000000000013775000000000000000000000000000449246390000000000000000000013762500000000000000000000000000418201990000000000000000000013750000000000000000000000000000435337610000000000000000000013737500000000000000000000000000481327700000000000000000000013725000000000000000000000000000461890690000000000000000000013712500000000000000000000000000460614320000000000000000000013700000000000000000000000000000461116290000000000000000000013687500000000000000000000000000484919870000000000000000000013675000000000000000000000000000502965390000000000000000000013662500000000000000000000000000472583810000000000000000000013650000000000000000000000000000474863700000000000000000000013637500000000000000000000000000396528230000000000000000000013625000000000000000000000000000417629840000000000000000000013612500000000000000000000000000409900660000000000000000000013600000000000000000000000000000426057170000000000000000000013587500000000000000000000000000484043800000000000000000000013575000000000000000000000000000475982090000000000000000000013562500000000000000000000000000444793310000000000000000000013550000000000000000000000000000448223050000000000000000000013537500000000000000000000000000484685560000000000000000000013525000000000000000000000000000490288030000000000000000000013512500000000000000000000000000464756340000000000000000000013500000000000000000000000000000427455170000000000000000000013487500000000000000000000000000450843940000000000000000000013475000000000000000000000000000476446140000000000000000000013462500000000000000000000000000493634680000000000000000000013450000000000000000000000000000477118520000000000000000000013437500000000000000000000000000488572780000000000000000000013425000000000000000000000000000462299560000000000000000000013412500000000000000000000000000450720630000000000000000000013400000000000000000000000000000438366490000000000000000000013387500000000000000000000000000432019530000000000000000000013375000000000000000000000000000461853380000000000000000000013362500000000000000000000000000469858750000000000000000000013350000000000000000000000000000466709610000000000000000000013337500000000000000000000000000480365980000000000000000000013325000000000000000000000000000468675610000000000000000000013312500000000000000000000000000462304180000000000000000000013300000000000000000000000000000456328880000000000000000000013287500000000000000000000000000479704110000000000000000000013275000000000000000000000000000475552170000000000000000000013262500000000000000000000000000477567550000000000000000000013250000000000000000000000000000493246410000000000000000000013237500000000000000000000000000460485560000000000000000000013225000000000000000000000000000444821530000000000000000000013212500000000000000000000000000430731420000000000000000000013200000000000000000000000000000432383190000000000000000000013187500000000000000000000000000436797890000000000000000000013175000000000000000000000000000429022190000000000000000000013162500000000000000000000000000460206860000000000000000000013150000000000000000000000000000490939530000000000000000000013137500000000000000000000000000473276990000000000000000000013125000000000000000000000000000443117410000000000000000000013112500000000000000000000000000433848220000000000000000000013100000000000000000000000000000440518120000000000000000000013087500000000000000000000000000457442220000000000000000000013075000000000000000000000000000447214620000000000000000000013062500000000000000000000000000451398730000000000000000000013050000000000000000000000000000442147040000000000000000000013037500000000000000000000000000425586460000000000000000000013025000000000000000000000000000445397640000000000000000000013012500000000000000000000000000448885540000000000000000000013000000000000000000000,
    421895710000000000000000000014587500000000000000000000000000471338580000000000000000000014575000000000000000000000000000470524560000000000000000000014562500000000000000000000000000454112270000000000000000000014550000000000000000000000000000493805820000000000000000000014537500000000000000000000000000439615250000000000000000000014525000000000000000000000000000458421340000000000000000000014512500000000000000000000000000457466170000000000000000000014500000000000000000000000000000441064060000000000000000000014487500000000000000000000000000502276750000000000000000000014475000000000000000000000000000496297180000000000000000000014462500000000000000000000000000436150000000000000000000000014450000000000000000000000000000440864780000000000000000000014437500000000000000000000000000473518580000000000000000000014425000000000000000000000000000493268400000000000000000000014412500000000000000000000000000493262370000000000000000000014400000000000000000000000000000444792000000000000000000000014387500000000000000000000000000458522220000000000000000000014375000000000000000000000000000470338310000000000000000000014362500000000000000000000000000490496830000000000000000000014350000000000000000000000000000461711820000000000000000000014337500000000000000000000000000450645250000000000000000000014325000000000000000000000000000449708540000000000000000000014312500000000000000000000000000475141710000000000000000000014300000000000000000000000000000514099480000000000000000000014287500000000000000000000000000498969840000000000000000000014275000000000000000000000000000453532640000000000000000000014262500000000000000000000000000427464170000000000000000000014250000000000000000000000000000427583610000000000000000000014237500000000000000000000000000452387460000000000000000000014225000000000000000000000000000440720860000000000000000000014212500000000000000000000000000443037860000000000000000000014200000000000000000000000000000446131470000000000000000000014187500000000000000000000000000494743810000000000000000000014175000000000000000000000000000449707620000000000000000000014162500000000000000000000000000442490440000000000000000000014150000000000000000000000000000457179030000000000000000000014137500000000000000000000000000487257020000000000000000000014125000000000000000000000000000437184060000000000000000000014112500000000000000000000000000467525850000000000000000000014100000000000000000000000000000519463650000000000000000000014087500000000000000000000000000468539170000000000000000000014075000000000000000000000000000409031140000000000000000000014062500000000000000000000000000475785370000000000000000000014050000000000000000000000000000498670500000000000000000000014037500000000000000000000000000468143720000000000000000000014025000000000000000000000000000441898720000000000000000000014012500000000000000000000000000441874790000000000000000000014000000000000000000000000000000478912940000000000000000000013987500000000000000000000000000480770240000000000000000000013975000000000000000000000000000486169300000000000000000000013962500000000000000000000000000476649340000000000000000000013950000000000000000000000000000459447190000000000000000000013937500000000000000000000000000428340300000000000000000000013925000000000000000000000000000438661500000000000000000000013912500000000000000000000000000436929590000000000000000000013900000000000000000000000000000416165580000000000000000000013887500000000000000000000000000454735690000000000000000000013875000000000000000000000000000454755470000000000000000000013862500000000000000000000000000490953230000000000000000000013850000000000000000000000000000490303500000000000000000000013837500000000000000000000000000475261650000000000000000000013825000000000000000000000000000459287210000000000000000000013812500000000000000000000000000453214120000000000000000000013800000000000000000000,
    473197870000000000000000000015387500000000000000000000000000465081650000000000000000000015375000000000000000000000000000441433290000000000000000000015362500000000000000000000000000467501650000000000000000000015350000000000000000000000000000482135710000000000000000000015337500000000000000000000000000429133350000000000000000000015325000000000000000000000000000436798920000000000000000000015312500000000000000000000000000488637630000000000000000000015300000000000000000000000000000441653910000000000000000000015287500000000000000000000000000462300050000000000000000000015275000000000000000000000000000477145250000000000000000000015262500000000000000000000000000459267260000000000000000000015250000000000000000000000000000465045460000000000000000000015237500000000000000000000000000445293400000000000000000000015225000000000000000000000000000415904120000000000000000000015212500000000000000000000000000475204030000000000000000000015200000000000000000000000000000491434090000000000000000000015187500000000000000000000000000453484300000000000000000000015175000000000000000000000000000456259190000000000000000000015162500000000000000000000000000427209720000000000000000000015150000000000000000000000000000407789860000000000000000000015137500000000000000000000000000459382640000000000000000000015125000000000000000000000000000511062490000000000000000000015112500000000000000000000000000511887770000000000000000000015100000000000000000000000000000474913080000000000000000000015087500000000000000000000000000417558890000000000000000000015075000000000000000000000000000426204180000000000000000000015062500000000000000000000000000442279700000000000000000000015050000000000000000000000000000439966560000000000000000000015037500000000000000000000000000447243010000000000000000000015025000000000000000000000000000476585590000000000000000000015012500000000000000000000000000461470630000000000000000000015000000000000000000000000000000454281260000000000000000000014987500000000000000000000000000479067760000000000000000000014975000000000000000000000000000469960070000000000000000000014962500000000000000000000000000452849120000000000000000000014950000000000000000000000000000453844760000000000000000000014937500000000000000000000000000454084200000000000000000000014925000000000000000000000000000425891430000000000000000000014912500000000000000000000000000465303140000000000000000000014900000000000000000000000000000478656450000000000000000000014887500000000000000000000000000470935340000000000000000000014875000000000000000000000000000450283660000000000000000000014862500000000000000000000000000438367670000000000000000000014850000000000000000000000000000433080640000000000000000000014837500000000000000000000000000464492720000000000000000000014825000000000000000000000000000504378220000000000000000000014812500000000000000000000000000478676200000000000000000000014800000000000000000000000000000497734930000000000000000000014787500000000000000000000000000473252070000000000000000000014775000000000000000000000000000442090730000000000000000000014762500000000000000000000000000411981230000000000000000000014750000000000000000000000000000416983880000000000000000000014737500000000000000000000000000448533390000000000000000000014725000000000000000000000000000474570470000000000000000000014712500000000000000000000000000503431050000000000000000000014700000000000000000000000000000478762710000000000000000000014687500000000000000000000000000436495030000000000000000000014675000000000000000000000000000441073930000000000000000000014662500000000000000000000000000460903250000000000000000000014650000000000000000000000000000472380780000000000000000000014637500000000000000000000000000503353660000000000000000000014625000000000000000000000000000487961910000000000000000000014612500000000000000000000000000464132990000000000000000000014600000000000000000000,
    437865330000000000000000000016187500000000000000000000000000441607290000000000000000000016175000000000000000000000000000457669850000000000000000000016162500000000000000000000000000454222760000000000000000000016150000000000000000000000000000458972980000000000000000000016137500000000000000000000000000460725800000000000000000000016125000000000000000000000000000440789280000000000000000000016112500000000000000000000000000477133730000000000000000000016100000000000000000000000000000516848710000000000000000000016087500000000000000000000000000488191540000000000000000000016075000000000000000000000000000431108690000000000000000000016062500000000000000000000000000444070590000000000000000000016050000000000000000000000000000482074380000000000000000000016037500000000000000000000000000453787120000000000000000000016025000000000000000000000000000492938330000000000000000000016012500000000000000000000000000466618780000000000000000000016000000000000000000000000000000444624580000000000000000000015987500000000000000000000000000439517700000000000000000000015975000000000000000000000000000468359670000000000000000000015962500000000000000000000000000439216230000000000000000000015950000000000000000000000000000430151430000000000000000000015937500000000000000000000000000441479700000000000000000000015925000000000000000000000000000415065700000000000000000000015912500000000000000000000000000461911560000000000000000000015900000000000000000000000000000453912130000000000000000000015887500000000000000000000000000454219340000000000000000000015875000000000000000000000000000456721080000000000000000000015862500000000000000000000000000422263140000000000000000000015850000000000000000000000000000446360540000000000000000000015837500000000000000000000000000429991520000000000000000000015825000000000000000000000000000425066270000000000000000000015812500000000000000000000000000457328860000000000000000000015800000000000000000000000000000473712510000000000000000000015787500000000000000000000000000473343980000000000000000000015775000000000000000000000000000462953040000000000000000000015762500000000000000000000000000427971020000000000000000000015750000000000000000000000000000475577850000000000000000000015737500000000000000000000000000459718280000000000000000000015725000000000000000000000000000448250730000000000000000000015712500000000000000000000000000443638700000000000000000000015700000000000000000000000000000434590800000000000000000000015687500000000000000000000000000429671110000000000000000000015675000000000000000000000000000478675700000000000000000000015662500000000000000000000000000465381580000000000000000000015650000000000000000000000000000450642100000000000000000000015637500000000000000000000000000468113460000000000000000000015625000000000000000000000000000476358990000000000000000000015612500000000000000000000000000472421560000000000000000000015600000000000000000000000000000436556270000000000000000000015587500000000000000000000000000416116290000000000000000000015575000000000000000000000000000485225910000000000000000000015562500000000000000000000000000452367520000000000000000000015550000000000000000000000000000431980350000000000000000000015537500000000000000000000000000434614310000000000000000000015525000000000000000000000000000482180480000000000000000000015512500000000000000000000000000461091330000000000000000000015500000000000000000000000000000467603340000000000000000000015487500000000000000000000000000491342360000000000000000000015475000000000000000000000000000493160160000000000000000000015462500000000000000000000000000442144190000000000000000000015450000000000000000000000000000439604190000000000000000000015437500000000000000000000000000476595540000000000000000000015425000000000000000000000000000488741790000000000000000000015412500000000000000000000000000491542940000000000000000000015400000000000000000000,
    473290540000000000000000000016987500000000000000000000000000421590760000000000000000000016975000000000000000000000000000438418240000000000000000000016962500000000000000000000000000441404180000000000000000000016950000000000000000000000000000407466390000000000000000000016937500000000000000000000000000451928460000000000000000000016925000000000000000000000000000482903500000000000000000000016912500000000000000000000000000429702710000000000000000000016900000000000000000000000000000418347850000000000000000000016887500000000000000000000000000451833910000000000000000000016875000000000000000000000000000455183970000000000000000000016862500000000000000000000000000472032830000000000000000000016850000000000000000000000000000489655040000000000000000000016837500000000000000000000000000481649990000000000000000000016825000000000000000000000000000463253690000000000000000000016812500000000000000000000000000480248310000000000000000000016800000000000000000000000000000494428950000000000000000000016787500000000000000000000000000494504160000000000000000000016775000000000000000000000000000473273140000000000000000000016762500000000000000000000000000463859370000000000000000000016750000000000000000000000000000444972070000000000000000000016737500000000000000000000000000482455980000000000000000000016725000000000000000000000000000446335450000000000000000000016712500000000000000000000000000437784530000000000000000000016700000000000000000000000000000428096500000000000000000000016687500000000000000000000000000441030380000000000000000000016675000000000000000000000000000462851040000000000000000000016662500000000000000000000000000459406100000000000000000000016650000000000000000000000000000452807470000000000000000000016637500000000000000000000000000462964460000000000000000000016625000000000000000000000000000433313240000000000000000000016612500000000000000000000000000470595200000000000000000000016600000000000000000000000000000476814330000000000000000000016587500000000000000000000000000450557140000000000000000000016575000000000000000000000000000479208160000000000000000000016562500000000000000000000000000473657520000000000000000000016550000000000000000000000000000460294120000000000000000000016537500000000000000000000000000449131030000000000000000000016525000000000000000000000000000467204560000000000000000000016512500000000000000000000000000428548970000000000000000000016500000000000000000000000000000440129070000000000000000000016487500000000000000000000000000429473660000000000000000000016475000000000000000000000000000437066050000000000000000000016462500000000000000000000000000434983910000000000000000000016450000000000000000000000000000437772680000000000000000000016437500000000000000000000000000412704390000000000000000000016425000000000000000000000000000423425220000000000000000000016412500000000000000000000000000445772270000000000000000000016400000000000000000000000000000455525060000000000000000000016387500000000000000000000000000456472490000000000000000000016375000000000000000000000000000441328190000000000000000000016362500000000000000000000000000437784410000000000000000000016350000000000000000000000000000467748590000000000000000000016337500000000000000000000000000479898050000000000000000000016325000000000000000000000000000473172750000000000000000000016312500000000000000000000000000499602590000000000000000000016300000000000000000000000000000491489920000000000000000000016287500000000000000000000000000442213320000000000000000000016275000000000000000000000000000424156580000000000000000000016262500000000000000000000000000398814470000000000000000000016250000000000000000000000000000423480700000000000000000000016237500000000000000000000000000436334340000000000000000000016225000000000000000000000000000423174500000000000000000000016212500000000000000000000000000425408010000000000000000000016200000000000000000000,
    451678780000000000000000000017787500000000000000000000000000435633740000000000000000000017775000000000000000000000000000439232960000000000000000000017762500000000000000000000000000428110860000000000000000000017750000000000000000000000000000412558310000000000000000000017737500000000000000000000000000415026150000000000000000000017725000000000000000000000000000457620800000000000000000000017712500000000000000000000000000459407810000000000000000000017700000000000000000000000000000452866290000000000000000000017687500000000000000000000000000453626000000000000000000000017675000000000000000000000000000452398780000000000000000000017662500000000000000000000000000425880700000000000000000000017650000000000000000000000000000463539180000000000000000000017637500000000000000000000000000468618450000000000000000000017625000000000000000000000000000447827470000000000000000000017612500000000000000000000000000425144470000000000000000000017600000000000000000000000000000491624290000000000000000000017587500000000000000000000000000482703860000000000000000000017575000000000000000000000000000442326650000000000000000000017562500000000000000000000000000434671490000000000000000000017550000000000000000000000000000433536940000000000000000000017537500000000000000000000000000463964110000000000000000000017525000000000000000000000000000471611570000000000000000000017512500000000000000000000000000474805680000000000000000000017500000000000000000000000000000455437110000000000000000000017487500000000000000000000000000459860590000000000000000000017475000000000000000000000000000457525150000000000000000000017462500000000000000000000000000402189770000000000000000000017450000000000000000000000000000449175940000000000000000000017437500000000000000000000000000469904550000000000000000000017425000000000000000000000000000469363160000000000000000000017412500000000000000000000000000452251200000000000000000000017400000000000000000000000000000486310100000000000000000000017387500000000000000000000000000505091390000000000000000000017375000000000000000000000000000455098120000000000000000000017362500000000000000000000000000464711530000000000000000000017350000000000000000000000000000488287440000000000000000000017337500000000000000000000000000442182850000000000000000000017325000000000000000000000000000441239030000000000000000000017312500000000000000000000000000458134660000000000000000000017300000000000000000000000000000449355300000000000000000000017287500000000000000000000000000431136490000000000000000000017275000000000000000000000000000425112330000000000000000000017262500000000000000000000000000474542980000000000000000000017250000000000000000000000000000502350620000000000000000000017237500000000000000000000000000470357440000000000000000000017225000000000000000000000000000460865670000000000000000000017212500000000000000000000000000501191940000000000000000000017200000000000000000000000000000454437760000000000000000000017187500000000000000000000000000458663510000000000000000000017175000000000000000000000000000454034720000000000000000000017162500000000000000000000000000468838970000000000000000000017150000000000000000000000000000420882400000000000000000000017137500000000000000000000000000443148450000000000000000000017125000000000000000000000000000449002370000000000000000000017112500000000000000000000000000432925360000000000000000000017100000000000000000000000000000458490020000000000000000000017087500000000000000000000000000458881430000000000000000000017075000000000000000000000000000486210680000000000000000000017062500000000000000000000000000483237600000000000000000000017050000000000000000000000000000474050630000000000000000000017037500000000000000000000000000466528880000000000000000000017025000000000000000000000000000421090650000000000000000000017012500000000000000000000000000436158520000000000000000000017000000000000000000000,
    429551540000000000000000000018587500000000000000000000000000445799390000000000000000000018575000000000000000000000000000463828450000000000000000000018562500000000000000000000000000454803460000000000000000000018550000000000000000000000000000472639410000000000000000000018537500000000000000000000000000483237500000000000000000000018525000000000000000000000000000467410130000000000000000000018512500000000000000000000000000407302200000000000000000000018500000000000000000000000000000437033200000000000000000000018487500000000000000000000000000456898870000000000000000000018475000000000000000000000000000440426860000000000000000000018462500000000000000000000000000399181650000000000000000000018450000000000000000000000000000426289570000000000000000000018437500000000000000000000000000451179700000000000000000000018425000000000000000000000000000476434440000000000000000000018412500000000000000000000000000434440800000000000000000000018400000000000000000000000000000463022570000000000000000000018387500000000000000000000000000486767340000000000000000000018375000000000000000000000000000466922780000000000000000000018362500000000000000000000000000473299080000000000000000000018350000000000000000000000000000439443980000000000000000000018337500000000000000000000000000437207890000000000000000000018325000000000000000000000000000456909350000000000000000000018312500000000000000000000000000480396750000000000000000000018300000000000000000000000000000496853120000000000000000000018287500000000000000000000000000491473180000000000000000000018275000000000000000000000000000430249150000000000000000000018262500000000000000000000000000430759830000000000000000000018250000000000000000000000000000439579070000000000000000000018237500000000000000000000000000460230750000000000000000000018225000000000000000000000000000467500830000000000000000000018212500000000000000000000000000460614730000000000000000000018200000000000000000000000000000445476290000000000000000000018187500000000000000000000000000433771000000000000000000000018175000000000000000000000000000417108760000000000000000000018162500000000000000000000000000415574660000000000000000000018150000000000000000000000000000437207920000000000000000000018137500000000000000000000000000493455370000000000000000000018125000000000000000000000000000473847430000000000000000000018112500000000000000000000000000490312800000000000000000000018100000000000000000000000000000458607020000000000000000000018087500000000000000000000000000429724760000000000000000000018075000000000000000000000000000447192670000000000000000000018062500000000000000000000000000445614410000000000000000000018050000000000000000000000000000483480710000000000000000000018037500000000000000000000000000438619940000000000000000000018025000000000000000000000000000431193160000000000000000000018012500000000000000000000000000489483410000000000000000000018000000000000000000000000000000469610450000000000000000000017987500000000000000000000000000471141890000000000000000000017975000000000000000000000000000487716290000000000000000000017962500000000000000000000000000479499860000000000000000000017950000000000000000000000000000456771610000000000000000000017937500000000000000000000000000476329570000000000000000000017925000000000000000000000000000490022240000000000000000000017912500000000000000000000000000452465720000000000000000000017900000000000000000000000000000448980250000000000000000000017887500000000000000000000000000448895120000000000000000000017875000000000000000000000000000426864160000000000000000000017862500000000000000000000000000447740750000000000000000000017850000000000000000000000000000481411250000000000000000000017837500000000000000000000000000498270810000000000000000000017825000000000000000000000000000489121740000000000000000000017812500000000000000000000000000463537170000000000000000000017800000000000000000000,
    453094420000000000000000000019387500000000000000000000000000454087710000000000000000000019375000000000000000000000000000477155450000000000000000000019362500000000000000000000000000469619790000000000000000000019350000000000000000000000000000479535180000000000000000000019337500000000000000000000000000504102520000000000000000000019325000000000000000000000000000438093290000000000000000000019312500000000000000000000000000424113070000000000000000000019300000000000000000000000000000471665520000000000000000000019287500000000000000000000000000485728050000000000000000000019275000000000000000000000000000499320620000000000000000000019262500000000000000000000000000478637230000000000000000000019250000000000000000000000000000451482460000000000000000000019237500000000000000000000000000469557240000000000000000000019225000000000000000000000000000466313370000000000000000000019212500000000000000000000000000457977170000000000000000000019200000000000000000000000000000462916350000000000000000000019187500000000000000000000000000439218990000000000000000000019175000000000000000000000000000427049840000000000000000000019162500000000000000000000000000408640350000000000000000000019150000000000000000000000000000400232260000000000000000000019137500000000000000000000000000408509370000000000000000000019125000000000000000000000000000426765950000000000000000000019112500000000000000000000000000449947520000000000000000000019100000000000000000000000000000483886570000000000000000000019087500000000000000000000000000455580160000000000000000000019075000000000000000000000000000441002710000000000000000000019062500000000000000000000000000449060200000000000000000000019050000000000000000000000000000467906400000000000000000000019037500000000000000000000000000466465780000000000000000000019025000000000000000000000000000435312600000000000000000000019012500000000000000000000000000445318930000000000000000000019000000000000000000000000000000448917970000000000000000000018987500000000000000000000000000482424460000000000000000000018975000000000000000000000000000466292260000000000000000000018962500000000000000000000000000449316030000000000000000000018950000000000000000000000000000441893110000000000000000000018937500000000000000000000000000450236480000000000000000000018925000000000000000000000000000461148020000000000000000000018912500000000000000000000000000429258860000000000000000000018900000000000000000000000000000417205380000000000000000000018887500000000000000000000000000432534980000000000000000000018875000000000000000000000000000441366650000000000000000000018862500000000000000000000000000455268030000000000000000000018850000000000000000000000000000467842980000000000000000000018837500000000000000000000000000463677550000000000000000000018825000000000000000000000000000436411820000000000000000000018812500000000000000000000000000498019660000000000000000000018800000000000000000000000000000482511260000000000000000000018787500000000000000000000000000481446090000000000000000000018775000000000000000000000000000507738960000000000000000000018762500000000000000000000000000473122420000000000000000000018750000000000000000000000000000466674980000000000000000000018737500000000000000000000000000457136760000000000000000000018725000000000000000000000000000442760830000000000000000000018712500000000000000000000000000438377260000000000000000000018700000000000000000000000000000463897480000000000000000000018687500000000000000000000000000495036560000000000000000000018675000000000000000000000000000479825220000000000000000000018662500000000000000000000000000452057750000000000000000000018650000000000000000000000000000431958820000000000000000000018637500000000000000000000000000446005830000000000000000000018625000000000000000000000000000452870060000000000000000000018612500000000000000000000000000449686720000000000000000000018600000000000000000000,
    486225380000000000000000000020187500000000000000000000000000470338880000000000000000000020175000000000000000000000000000438621420000000000000000000020162500000000000000000000000000426517950000000000000000000020150000000000000000000000000000466247240000000000000000000020137500000000000000000000000000442562510000000000000000000020125000000000000000000000000000429673400000000000000000000020112500000000000000000000000000462429690000000000000000000020100000000000000000000000000000427414430000000000000000000020087500000000000000000000000000449542840000000000000000000020075000000000000000000000000000441235950000000000000000000020062500000000000000000000000000431032120000000000000000000020050000000000000000000000000000433912130000000000000000000020037500000000000000000000000000431940860000000000000000000020025000000000000000000000000000422235690000000000000000000020012500000000000000000000000000424737060000000000000000000020000000000000000000000000000000457312530000000000000000000019987500000000000000000000000000452531090000000000000000000019975000000000000000000000000000441362760000000000000000000019962500000000000000000000000000472795330000000000000000000019950000000000000000000000000000447002820000000000000000000019937500000000000000000000000000466646220000000000000000000019925000000000000000000000000000501540120000000000000000000019912500000000000000000000000000492080850000000000000000000019900000000000000000000000000000495870870000000000000000000019887500000000000000000000000000511993190000000000000000000019875000000000000000000000000000472455880000000000000000000019862500000000000000000000000000457068260000000000000000000019850000000000000000000000000000497295150000000000000000000019837500000000000000000000000000490533670000000000000000000019825000000000000000000000000000491650160000000000000000000019812500000000000000000000000000468034910000000000000000000019800000000000000000000000000000457584420000000000000000000019787500000000000000000000000000542731760000000000000000000019775000000000000000000000000000525078830000000000000000000019762500000000000000000000000000525113790000000000000000000019750000000000000000000000000000509985180000000000000000000019737500000000000000000000000000511073930000000000000000000019725000000000000000000000000000476829960000000000000000000019712500000000000000000000000000446273660000000000000000000019700000000000000000000000000000483030890000000000000000000019687500000000000000000000000000493426370000000000000000000019675000000000000000000000000000512117780000000000000000000019662500000000000000000000000000500127220000000000000000000019650000000000000000000000000000473984760000000000000000000019637500000000000000000000000000451118610000000000000000000019625000000000000000000000000000429379750000000000000000000019612500000000000000000000000000471885890000000000000000000019600000000000000000000000000000500787310000000000000000000019587500000000000000000000000000474427850000000000000000000019575000000000000000000000000000487102630000000000000000000019562500000000000000000000000000486312550000000000000000000019550000000000000000000000000000468395890000000000000000000019537500000000000000000000000000440457660000000000000000000019525000000000000000000000000000506338080000000000000000000019512500000000000000000000000000481147090000000000000000000019500000000000000000000000000000447188370000000000000000000019487500000000000000000000000000442401320000000000000000000019475000000000000000000000000000444776970000000000000000000019462500000000000000000000000000480871860000000000000000000019450000000000000000000000000000495151610000000000000000000019437500000000000000000000000000470754210000000000000000000019425000000000000000000000000000493291620000000000000000000019412500000000000000000000000000478153220000000000000000000019400000000000000000000,
    455240080000000000000000000020987500000000000000000000000000505904560000000000000000000020975000000000000000000000000000489753070000000000000000000020962500000000000000000000000000466621390000000000000000000020950000000000000000000000000000435998320000000000000000000020937500000000000000000000000000416565710000000000000000000020925000000000000000000000000000431463920000000000000000000020912500000000000000000000000000430430870000000000000000000020900000000000000000000000000000453590840000000000000000000020887500000000000000000000000000492327190000000000000000000020875000000000000000000000000000498701650000000000000000000020862500000000000000000000000000484631560000000000000000000020850000000000000000000000000000434048820000000000000000000020837500000000000000000000000000428359000000000000000000000020825000000000000000000000000000443772430000000000000000000020812500000000000000000000000000450938690000000000000000000020800000000000000000000000000000480411480000000000000000000020787500000000000000000000000000500597060000000000000000000020775000000000000000000000000000480571270000000000000000000020762500000000000000000000000000482643510000000000000000000020750000000000000000000000000000458529140000000000000000000020737500000000000000000000000000461022600000000000000000000020725000000000000000000000000000488298950000000000000000000020712500000000000000000000000000494518040000000000000000000020700000000000000000000000000000463327300000000000000000000020687500000000000000000000000000458919440000000000000000000020675000000000000000000000000000475275520000000000000000000020662500000000000000000000000000460515320000000000000000000020650000000000000000000000000000436519160000000000000000000020637500000000000000000000000000438803190000000000000000000020625000000000000000000000000000424229260000000000000000000020612500000000000000000000000000447719830000000000000000000020600000000000000000000000000000458311320000000000000000000020587500000000000000000000000000451098320000000000000000000020575000000000000000000000000000441471530000000000000000000020562500000000000000000000000000439126590000000000000000000020550000000000000000000000000000463766700000000000000000000020537500000000000000000000000000435081180000000000000000000020525000000000000000000000000000419972460000000000000000000020512500000000000000000000000000433029140000000000000000000020500000000000000000000000000000471723320000000000000000000020487500000000000000000000000000428121670000000000000000000020475000000000000000000000000000435846100000000000000000000020462500000000000000000000000000445969940000000000000000000020450000000000000000000000000000437085810000000000000000000020437500000000000000000000000000467746280000000000000000000020425000000000000000000000000000460945560000000000000000000020412500000000000000000000000000413841380000000000000000000020400000000000000000000000000000470454700000000000000000000020387500000000000000000000000000462254140000000000000000000020375000000000000000000000000000427898140000000000000000000020362500000000000000000000000000465584990000000000000000000020350000000000000000000000000000450160500000000000000000000020337500000000000000000000000000441060170000000000000000000020325000000000000000000000000000451497190000000000000000000020312500000000000000000000000000435263860000000000000000000020300000000000000000000000000000433750690000000000000000000020287500000000000000000000000000486808670000000000000000000020275000000000000000000000000000431988110000000000000000000020262500000000000000000000000000456065770000000000000000000020250000000000000000000000000000470041730000000000000000000020237500000000000000000000000000472820350000000000000000000020225000000000000000000000000000432012250000000000000000000020212500000000000000000000000000426908010000000000000000000020200000000000000000000,
    415789700000000000000000000021787500000000000000000000000000441134820000000000000000000021775000000000000000000000000000428531020000000000000000000021762500000000000000000000000000425309580000000000000000000021750000000000000000000000000000444818760000000000000000000021737500000000000000000000000000445306380000000000000000000021725000000000000000000000000000467413390000000000000000000021712500000000000000000000000000449685960000000000000000000021700000000000000000000000000000473833100000000000000000000021687500000000000000000000000000482028720000000000000000000021675000000000000000000000000000447611400000000000000000000021662500000000000000000000000000446880480000000000000000000021650000000000000000000000000000414911230000000000000000000021637500000000000000000000000000455444250000000000000000000021625000000000000000000000000000459114700000000000000000000021612500000000000000000000000000419264880000000000000000000021600000000000000000000000000000421140570000000000000000000021587500000000000000000000000000430217650000000000000000000021575000000000000000000000000000471478740000000000000000000021562500000000000000000000000000488723440000000000000000000021550000000000000000000000000000482146240000000000000000000021537500000000000000000000000000465909860000000000000000000021525000000000000000000000000000457568450000000000000000000021512500000000000000000000000000453954830000000000000000000021500000000000000000000000000000451415890000000000000000000021487500000000000000000000000000449526670000000000000000000021475000000000000000000000000000454982920000000000000000000021462500000000000000000000000000487922340000000000000000000021450000000000000000000000000000483401460000000000000000000021437500000000000000000000000000465233910000000000000000000021425000000000000000000000000000476529710000000000000000000021412500000000000000000000000000461117170000000000000000000021400000000000000000000000000000447226260000000000000000000021387500000000000000000000000000430636850000000000000000000021375000000000000000000000000000439191820000000000000000000021362500000000000000000000000000421732840000000000000000000021350000000000000000000000000000424622450000000000000000000021337500000000000000000000000000455999590000000000000000000021325000000000000000000000000000495850640000000000000000000021312500000000000000000000000000469076780000000000000000000021300000000000000000000000000000438868770000000000000000000021287500000000000000000000000000415185600000000000000000000021275000000000000000000000000000411577650000000000000000000021262500000000000000000000000000406933480000000000000000000021250000000000000000000000000000437728130000000000000000000021237500000000000000000000000000448649360000000000000000000021225000000000000000000000000000451340850000000000000000000021212500000000000000000000000000447448430000000000000000000021200000000000000000000000000000444483180000000000000000000021187500000000000000000000000000430579540000000000000000000021175000000000000000000000000000472039670000000000000000000021162500000000000000000000000000402662690000000000000000000021150000000000000000000000000000426126940000000000000000000021137500000000000000000000000000481070490000000000000000000021125000000000000000000000000000477652470000000000000000000021112500000000000000000000000000452436750000000000000000000021100000000000000000000000000000461821170000000000000000000021087500000000000000000000000000459622860000000000000000000021075000000000000000000000000000436393620000000000000000000021062500000000000000000000000000480170580000000000000000000021050000000000000000000000000000471224190000000000000000000021037500000000000000000000000000426750050000000000000000000021025000000000000000000000000000429427270000000000000000000021012500000000000000000000000000439760790000000000000000000021000000000000000000000,
    470834660000000000000000000022587500000000000000000000000000479678270000000000000000000022575000000000000000000000000000476883990000000000000000000022562500000000000000000000000000454066010000000000000000000022550000000000000000000000000000435617440000000000000000000022537500000000000000000000000000455356430000000000000000000022525000000000000000000000000000437035540000000000000000000022512500000000000000000000000000450711820000000000000000000022500000000000000000000000000000411932170000000000000000000022487500000000000000000000000000420756200000000000000000000022475000000000000000000000000000467076440000000000000000000022462500000000000000000000000000419726420000000000000000000022450000000000000000000000000000406207440000000000000000000022437500000000000000000000000000428964130000000000000000000022425000000000000000000000000000446094780000000000000000000022412500000000000000000000000000445082020000000000000000000022400000000000000000000000000000463416860000000000000000000022387500000000000000000000000000447743090000000000000000000022375000000000000000000000000000462311260000000000000000000022362500000000000000000000000000477500940000000000000000000022350000000000000000000000000000460492280000000000000000000022337500000000000000000000000000494477530000000000000000000022325000000000000000000000000000471997550000000000000000000022312500000000000000000000000000452517890000000000000000000022300000000000000000000000000000476176210000000000000000000022287500000000000000000000000000459069410000000000000000000022275000000000000000000000000000446092560000000000000000000022262500000000000000000000000000454431700000000000000000000022250000000000000000000000000000452663070000000000000000000022237500000000000000000000000000465334320000000000000000000022225000000000000000000000000000484288710000000000000000000022212500000000000000000000000000431644250000000000000000000022200000000000000000000000000000448759410000000000000000000022187500000000000000000000000000470164520000000000000000000022175000000000000000000000000000460047200000000000000000000022162500000000000000000000000000480834620000000000000000000022150000000000000000000000000000515988340000000000000000000022137500000000000000000000000000500685430000000000000000000022125000000000000000000000000000461782120000000000000000000022112500000000000000000000000000467022800000000000000000000022100000000000000000000000000000466660870000000000000000000022087500000000000000000000000000434523030000000000000000000022075000000000000000000000000000447682560000000000000000000022062500000000000000000000000000458563930000000000000000000022050000000000000000000000000000434997540000000000000000000022037500000000000000000000000000414972350000000000000000000022025000000000000000000000000000443412500000000000000000000022012500000000000000000000000000479401230000000000000000000022000000000000000000000000000000456528000000000000000000000021987500000000000000000000000000418463960000000000000000000021975000000000000000000000000000422839020000000000000000000021962500000000000000000000000000416863290000000000000000000021950000000000000000000000000000398977190000000000000000000021937500000000000000000000000000409349370000000000000000000021925000000000000000000000000000398428440000000000000000000021912500000000000000000000000000436162090000000000000000000021900000000000000000000000000000470422320000000000000000000021887500000000000000000000000000431020360000000000000000000021875000000000000000000000000000434945880000000000000000000021862500000000000000000000000000482757650000000000000000000021850000000000000000000000000000483447640000000000000000000021837500000000000000000000000000442733890000000000000000000021825000000000000000000000000000464867490000000000000000000021812500000000000000000000000000444192870000000000000000000021800000000000000000000,
    464552310000000000000000000023387500000000000000000000000000467632000000000000000000000023375000000000000000000000000000483539940000000000000000000023362500000000000000000000000000466401060000000000000000000023350000000000000000000000000000415550980000000000000000000023337500000000000000000000000000409028880000000000000000000023325000000000000000000000000000404610210000000000000000000023312500000000000000000000000000403973820000000000000000000023300000000000000000000000000000426586520000000000000000000023287500000000000000000000000000451463080000000000000000000023275000000000000000000000000000472591680000000000000000000023262500000000000000000000000000506137140000000000000000000023250000000000000000000000000000506624560000000000000000000023237500000000000000000000000000512375470000000000000000000023225000000000000000000000000000517325200000000000000000000023212500000000000000000000000000483068550000000000000000000023200000000000000000000000000000435990440000000000000000000023187500000000000000000000000000443563620000000000000000000023175000000000000000000000000000447023440000000000000000000023162500000000000000000000000000445648400000000000000000000023150000000000000000000000000000453482210000000000000000000023137500000000000000000000000000437120350000000000000000000023125000000000000000000000000000410795470000000000000000000023112500000000000000000000000000430617560000000000000000000023100000000000000000000000000000436971830000000000000000000023087500000000000000000000000000481731090000000000000000000023075000000000000000000000000000472188890000000000000000000023062500000000000000000000000000450588260000000000000000000023050000000000000000000000000000459933250000000000000000000023037500000000000000000000000000449933260000000000000000000023025000000000000000000000000000449476580000000000000000000023012500000000000000000000000000441602660000000000000000000023000000000000000000000000000000435521930000000000000000000022987500000000000000000000000000451577020000000000000000000022975000000000000000000000000000419441200000000000000000000022962500000000000000000000000000438741740000000000000000000022950000000000000000000000000000441630210000000000000000000022937500000000000000000000000000430266540000000000000000000022925000000000000000000000000000458271090000000000000000000022912500000000000000000000000000461988350000000000000000000022900000000000000000000000000000456636300000000000000000000022887500000000000000000000000000479409220000000000000000000022875000000000000000000000000000466793650000000000000000000022862500000000000000000000000000437016850000000000000000000022850000000000000000000000000000444278690000000000000000000022837500000000000000000000000000469025780000000000000000000022825000000000000000000000000000479500630000000000000000000022812500000000000000000000000000483821370000000000000000000022800000000000000000000000000000417538290000000000000000000022787500000000000000000000000000421119530000000000000000000022775000000000000000000000000000473359200000000000000000000022762500000000000000000000000000502088060000000000000000000022750000000000000000000000000000467879460000000000000000000022737500000000000000000000000000458693470000000000000000000022725000000000000000000000000000424068190000000000000000000022712500000000000000000000000000453917430000000000000000000022700000000000000000000000000000454289680000000000000000000022687500000000000000000000000000445704330000000000000000000022675000000000000000000000000000431196160000000000000000000022662500000000000000000000000000425190400000000000000000000022650000000000000000000000000000444836630000000000000000000022637500000000000000000000000000438565320000000000000000000022625000000000000000000000000000427590370000000000000000000022612500000000000000000000000000437087500000000000000000000022600000000000000000000,
    470054970000000000000000000024187500000000000000000000000000468851390000000000000000000024175000000000000000000000000000456896600000000000000000000024162500000000000000000000000000474831570000000000000000000024150000000000000000000000000000478181370000000000000000000024137500000000000000000000000000398726150000000000000000000024125000000000000000000000000000450446890000000000000000000024112500000000000000000000000000484724750000000000000000000024100000000000000000000000000000473219780000000000000000000024087500000000000000000000000000453714940000000000000000000024075000000000000000000000000000439813730000000000000000000024062500000000000000000000000000449916570000000000000000000024050000000000000000000000000000435570200000000000000000000024037500000000000000000000000000452985980000000000000000000024025000000000000000000000000000439170400000000000000000000024012500000000000000000000000000461777150000000000000000000024000000000000000000000000000000480668700000000000000000000023987500000000000000000000000000459352700000000000000000000023975000000000000000000000000000491559370000000000000000000023962500000000000000000000000000437558800000000000000000000023950000000000000000000000000000467214420000000000000000000023937500000000000000000000000000473838090000000000000000000023925000000000000000000000000000468758710000000000000000000023912500000000000000000000000000454196240000000000000000000023900000000000000000000000000000456583170000000000000000000023887500000000000000000000000000495528610000000000000000000023875000000000000000000000000000480841970000000000000000000023862500000000000000000000000000448400440000000000000000000023850000000000000000000000000000454493390000000000000000000023837500000000000000000000000000474303940000000000000000000023825000000000000000000000000000481362670000000000000000000023812500000000000000000000000000431425640000000000000000000023800000000000000000000000000000459343120000000000000000000023787500000000000000000000000000474915940000000000000000000023775000000000000000000000000000470989290000000000000000000023762500000000000000000000000000469307530000000000000000000023750000000000000000000000000000448190980000000000000000000023737500000000000000000000000000442093700000000000000000000023725000000000000000000000000000423418990000000000000000000023712500000000000000000000000000446911490000000000000000000023700000000000000000000000000000454919590000000000000000000023687500000000000000000000000000443470220000000000000000000023675000000000000000000000000000463959100000000000000000000023662500000000000000000000000000463220510000000000000000000023650000000000000000000000000000437101800000000000000000000023637500000000000000000000000000421549150000000000000000000023625000000000000000000000000000448912570000000000000000000023612500000000000000000000000000457351070000000000000000000023600000000000000000000000000000439584170000000000000000000023587500000000000000000000000000473371620000000000000000000023575000000000000000000000000000457101460000000000000000000023562500000000000000000000000000460395560000000000000000000023550000000000000000000000000000465317720000000000000000000023537500000000000000000000000000446161590000000000000000000023525000000000000000000000000000467013230000000000000000000023512500000000000000000000000000485088580000000000000000000023500000000000000000000000000000469290250000000000000000000023487500000000000000000000000000447103740000000000000000000023475000000000000000000000000000426406450000000000000000000023462500000000000000000000000000424233640000000000000000000023450000000000000000000000000000441735430000000000000000000023437500000000000000000000000000440445370000000000000000000023425000000000000000000000000000442616240000000000000000000023412500000000000000000000000000468413800000000000000000000023400000000000000000000,
    408342600000000000000000000024987500000000000000000000000000433720260000000000000000000024975000000000000000000000000000478118680000000000000000000024962500000000000000000000000000488955110000000000000000000024950000000000000000000000000000493504750000000000000000000024937500000000000000000000000000424627010000000000000000000024925000000000000000000000000000437186730000000000000000000024912500000000000000000000000000479580470000000000000000000024900000000000000000000000000000471717670000000000000000000024887500000000000000000000000000463628760000000000000000000024875000000000000000000000000000476894370000000000000000000024862500000000000000000000000000454381540000000000000000000024850000000000000000000000000000479608720000000000000000000024837500000000000000000000000000475463880000000000000000000024825000000000000000000000000000438205700000000000000000000024812500000000000000000000000000415023510000000000000000000024800000000000000000000000000000446405300000000000000000000024787500000000000000000000000000455466340000000000000000000024775000000000000000000000000000462810250000000000000000000024762500000000000000000000000000476865330000000000000000000024750000000000000000000000000000481078080000000000000000000024737500000000000000000000000000471615000000000000000000000024725000000000000000000000000000421587920000000000000000000024712500000000000000000000000000428120460000000000000000000024700000000000000000000000000000455697170000000000000000000024687500000000000000000000000000418120990000000000000000000024675000000000000000000000000000438072020000000000000000000024662500000000000000000000000000477271020000000000000000000024650000000000000000000000000000495295100000000000000000000024637500000000000000000000000000485701000000000000000000000024625000000000000000000000000000461599080000000000000000000024612500000000000000000000000000435463070000000000000000000024600000000000000000000000000000425867950000000000000000000024587500000000000000000000000000430315160000000000000000000024575000000000000000000000000000472765530000000000000000000024562500000000000000000000000000474408550000000000000000000024550000000000000000000000000000431779030000000000000000000024537500000000000000000000000000431382440000000000000000000024525000000000000000000000000000444982320000000000000000000024512500000000000000000000000000457123610000000000000000000024500000000000000000000000000000499804500000000000000000000024487500000000000000000000000000498531910000000000000000000024475000000000000000000000000000465101990000000000000000000024462500000000000000000000000000501814750000000000000000000024450000000000000000000000000000485531110000000000000000000024437500000000000000000000000000448982140000000000000000000024425000000000000000000000000000498998220000000000000000000024412500000000000000000000000000487025890000000000000000000024400000000000000000000000000000458779770000000000000000000024387500000000000000000000000000446876140000000000000000000024375000000000000000000000000000443090930000000000000000000024362500000000000000000000000000436066310000000000000000000024350000000000000000000000000000450283550000000000000000000024337500000000000000000000000000467856810000000000000000000024325000000000000000000000000000478965480000000000000000000024312500000000000000000000000000472143620000000000000000000024300000000000000000000000000000457104140000000000000000000024287500000000000000000000000000449986060000000000000000000024275000000000000000000000000000461341450000000000000000000024262500000000000000000000000000462436240000000000000000000024250000000000000000000000000000440395730000000000000000000024237500000000000000000000000000427708140000000000000000000024225000000000000000000000000000445625000000000000000000000024212500000000000000000000000000464435600000000000000000000024200000000000000000000,
    493208470000000000000000000025787500000000000000000000000000452139220000000000000000000025775000000000000000000000000000455395310000000000000000000025762500000000000000000000000000481964500000000000000000000025750000000000000000000000000000458946870000000000000000000025737500000000000000000000000000438218890000000000000000000025725000000000000000000000000000454667910000000000000000000025712500000000000000000000000000470832060000000000000000000025700000000000000000000000000000439569870000000000000000000025687500000000000000000000000000476553000000000000000000000025675000000000000000000000000000484517790000000000000000000025662500000000000000000000000000424757560000000000000000000025650000000000000000000000000000401725380000000000000000000025637500000000000000000000000000402002640000000000000000000025625000000000000000000000000000407418620000000000000000000025612500000000000000000000000000429514130000000000000000000025600000000000000000000000000000467373800000000000000000000025587500000000000000000000000000481671800000000000000000000025575000000000000000000000000000475023270000000000000000000025562500000000000000000000000000459718530000000000000000000025550000000000000000000000000000444774860000000000000000000025537500000000000000000000000000417793420000000000000000000025525000000000000000000000000000449088010000000000000000000025512500000000000000000000000000491070210000000000000000000025500000000000000000000000000000471371780000000000000000000025487500000000000000000000000000444355240000000000000000000025475000000000000000000000000000437068330000000000000000000025462500000000000000000000000000465083430000000000000000000025450000000000000000000000000000434946100000000000000000000025437500000000000000000000000000412703710000000000000000000025425000000000000000000000000000447081290000000000000000000025412500000000000000000000000000444648610000000000000000000025400000000000000000000000000000428194510000000000000000000025387500000000000000000000000000476674100000000000000000000025375000000000000000000000000000494863410000000000000000000025362500000000000000000000000000469085320000000000000000000025350000000000000000000000000000442528200000000000000000000025337500000000000000000000000000424620500000000000000000000025325000000000000000000000000000470445050000000000000000000025312500000000000000000000000000464635400000000000000000000025300000000000000000000000000000480923330000000000000000000025287500000000000000000000000000449710480000000000000000000025275000000000000000000000000000444600610000000000000000000025262500000000000000000000000000481278410000000000000000000025250000000000000000000000000000504121210000000000000000000025237500000000000000000000000000490077850000000000000000000025225000000000000000000000000000434966810000000000000000000025212500000000000000000000000000433170370000000000000000000025200000000000000000000000000000450344940000000000000000000025187500000000000000000000000000472605980000000000000000000025175000000000000000000000000000467937970000000000000000000025162500000000000000000000000000441859190000000000000000000025150000000000000000000000000000448741770000000000000000000025137500000000000000000000000000497953920000000000000000000025125000000000000000000000000000446828780000000000000000000025112500000000000000000000000000449125060000000000000000000025100000000000000000000000000000443876130000000000000000000025087500000000000000000000000000419202540000000000000000000025075000000000000000000000000000444093260000000000000000000025062500000000000000000000000000435830810000000000000000000025050000000000000000000000000000422704710000000000000000000025037500000000000000000000000000451593550000000000000000000025025000000000000000000000000000490450190000000000000000000025012500000000000000000000000000457413400000000000000000000025000000000000000000000,
    461177810000000000000000000026587500000000000000000000000000460234720000000000000000000026575000000000000000000000000000495259120000000000000000000026562500000000000000000000000000488522100000000000000000000026550000000000000000000000000000453655730000000000000000000026537500000000000000000000000000455303920000000000000000000026525000000000000000000000000000461950850000000000000000000026512500000000000000000000000000445173580000000000000000000026500000000000000000000000000000421420250000000000000000000026487500000000000000000000000000429627980000000000000000000026475000000000000000000000000000439722340000000000000000000026462500000000000000000000000000408073470000000000000000000026450000000000000000000000000000386136620000000000000000000026437500000000000000000000000000441142230000000000000000000026425000000000000000000000000000476816930000000000000000000026412500000000000000000000000000461213830000000000000000000026400000000000000000000000000000439384680000000000000000000026387500000000000000000000000000435943840000000000000000000026375000000000000000000000000000463484890000000000000000000026362500000000000000000000000000463756760000000000000000000026350000000000000000000000000000498198560000000000000000000026337500000000000000000000000000490976950000000000000000000026325000000000000000000000000000443373180000000000000000000026312500000000000000000000000000461583470000000000000000000026300000000000000000000000000000469925780000000000000000000026287500000000000000000000000000481853110000000000000000000026275000000000000000000000000000482487660000000000000000000026262500000000000000000000000000463407070000000000000000000026250000000000000000000000000000442072270000000000000000000026237500000000000000000000000000429585060000000000000000000026225000000000000000000000000000447218370000000000000000000026212500000000000000000000000000478237410000000000000000000026200000000000000000000000000000455639940000000000000000000026187500000000000000000000000000425406840000000000000000000026175000000000000000000000000000468181790000000000000000000026162500000000000000000000000000453063820000000000000000000026150000000000000000000000000000493416720000000000000000000026137500000000000000000000000000444499770000000000000000000026125000000000000000000000000000429042830000000000000000000026112500000000000000000000000000468957030000000000000000000026100000000000000000000000000000450964870000000000000000000026087500000000000000000000000000437470720000000000000000000026075000000000000000000000000000434632510000000000000000000026062500000000000000000000000000434118410000000000000000000026050000000000000000000000000000436031460000000000000000000026037500000000000000000000000000460771990000000000000000000026025000000000000000000000000000464519610000000000000000000026012500000000000000000000000000464718420000000000000000000026000000000000000000000000000000475539460000000000000000000025987500000000000000000000000000490781250000000000000000000025975000000000000000000000000000456933380000000000000000000025962500000000000000000000000000457919160000000000000000000025950000000000000000000000000000487104840000000000000000000025937500000000000000000000000000503635250000000000000000000025925000000000000000000000000000505502160000000000000000000025912500000000000000000000000000479456020000000000000000000025900000000000000000000000000000483229250000000000000000000025887500000000000000000000000000481799440000000000000000000025875000000000000000000000000000465630190000000000000000000025862500000000000000000000000000410200370000000000000000000025850000000000000000000000000000454884330000000000000000000025837500000000000000000000000000462086110000000000000000000025825000000000000000000000000000443646950000000000000000000025812500000000000000000000000000481550350000000000000000000025800000000000000000000,
    487617910000000000000000000027387500000000000000000000000000466200580000000000000000000027375000000000000000000000000000477428480000000000000000000027362500000000000000000000000000471341250000000000000000000027350000000000000000000000000000429412360000000000000000000027337500000000000000000000000000425342280000000000000000000027325000000000000000000000000000457076920000000000000000000027312500000000000000000000000000454566570000000000000000000027300000000000000000000000000000472631770000000000000000000027287500000000000000000000000000494886720000000000000000000027275000000000000000000000000000461636400000000000000000000027262500000000000000000000000000442475620000000000000000000027250000000000000000000000000000459100560000000000000000000027237500000000000000000000000000442761460000000000000000000027225000000000000000000000000000411045020000000000000000000027212500000000000000000000000000503320670000000000000000000027200000000000000000000000000000512560220000000000000000000027187500000000000000000000000000478999520000000000000000000027175000000000000000000000000000453167390000000000000000000027162500000000000000000000000000445052630000000000000000000027150000000000000000000000000000460764710000000000000000000027137500000000000000000000000000467963710000000000000000000027125000000000000000000000000000486521760000000000000000000027112500000000000000000000000000467632600000000000000000000027100000000000000000000000000000472741370000000000000000000027087500000000000000000000000000499983460000000000000000000027075000000000000000000000000000471656020000000000000000000027062500000000000000000000000000472050980000000000000000000027050000000000000000000000000000524350950000000000000000000027037500000000000000000000000000487928490000000000000000000027025000000000000000000000000000467522460000000000000000000027012500000000000000000000000000486287590000000000000000000027000000000000000000000000000000450985260000000000000000000026987500000000000000000000000000448107050000000000000000000026975000000000000000000000000000477027420000000000000000000026962500000000000000000000000000471262210000000000000000000026950000000000000000000000000000481416370000000000000000000026937500000000000000000000000000490103180000000000000000000026925000000000000000000000000000518937540000000000000000000026912500000000000000000000000000545073310000000000000000000026900000000000000000000000000000523569300000000000000000000026887500000000000000000000000000467228270000000000000000000026875000000000000000000000000000482988760000000000000000000026862500000000000000000000000000471802870000000000000000000026850000000000000000000000000000480188230000000000000000000026837500000000000000000000000000467625140000000000000000000026825000000000000000000000000000464302270000000000000000000026812500000000000000000000000000478976120000000000000000000026800000000000000000000000000000476505880000000000000000000026787500000000000000000000000000477662660000000000000000000026775000000000000000000000000000479142490000000000000000000026762500000000000000000000000000421070520000000000000000000026750000000000000000000000000000421187290000000000000000000026737500000000000000000000000000455085320000000000000000000026725000000000000000000000000000480988950000000000000000000026712500000000000000000000000000478366930000000000000000000026700000000000000000000000000000473185460000000000000000000026687500000000000000000000000000469035560000000000000000000026675000000000000000000000000000451180700000000000000000000026662500000000000000000000000000469500930000000000000000000026650000000000000000000000000000483077630000000000000000000026637500000000000000000000000000499339600000000000000000000026625000000000000000000000000000501399970000000000000000000026612500000000000000000000000000469576380000000000000000000026600000000000000000000,
    461588810000000000000000000028187500000000000000000000000000439852820000000000000000000028175000000000000000000000000000446365070000000000000000000028162500000000000000000000000000466300260000000000000000000028150000000000000000000000000000450364420000000000000000000028137500000000000000000000000000447997530000000000000000000028125000000000000000000000000000454367840000000000000000000028112500000000000000000000000000485970930000000000000000000028100000000000000000000000000000486188940000000000000000000028087500000000000000000000000000477879660000000000000000000028075000000000000000000000000000473886880000000000000000000028062500000000000000000000000000464406450000000000000000000028050000000000000000000000000000492034700000000000000000000028037500000000000000000000000000456705040000000000000000000028025000000000000000000000000000473536670000000000000000000028012500000000000000000000000000466550830000000000000000000028000000000000000000000000000000424352610000000000000000000027987500000000000000000000000000445409080000000000000000000027975000000000000000000000000000497169650000000000000000000027962500000000000000000000000000490690520000000000000000000027950000000000000000000000000000466886340000000000000000000027937500000000000000000000000000470751270000000000000000000027925000000000000000000000000000434382260000000000000000000027912500000000000000000000000000453713290000000000000000000027900000000000000000000000000000488384000000000000000000000027887500000000000000000000000000444622830000000000000000000027875000000000000000000000000000408576550000000000000000000027862500000000000000000000000000461833170000000000000000000027850000000000000000000000000000476058220000000000000000000027837500000000000000000000000000445682670000000000000000000027825000000000000000000000000000474671620000000000000000000027812500000000000000000000000000447297970000000000000000000027800000000000000000000000000000466752270000000000000000000027787500000000000000000000000000470798610000000000000000000027775000000000000000000000000000450776970000000000000000000027762500000000000000000000000000448860100000000000000000000027750000000000000000000000000000445701600000000000000000000027737500000000000000000000000000445375450000000000000000000027725000000000000000000000000000443613020000000000000000000027712500000000000000000000000000472456240000000000000000000027700000000000000000000000000000454696320000000000000000000027687500000000000000000000000000444467650000000000000000000027675000000000000000000000000000453892020000000000000000000027662500000000000000000000000000441107030000000000000000000027650000000000000000000000000000434830090000000000000000000027637500000000000000000000000000450924080000000000000000000027625000000000000000000000000000463646830000000000000000000027612500000000000000000000000000461354880000000000000000000027600000000000000000000000000000432672640000000000000000000027587500000000000000000000000000432953270000000000000000000027575000000000000000000000000000451030880000000000000000000027562500000000000000000000000000499860120000000000000000000027550000000000000000000000000000486981270000000000000000000027537500000000000000000000000000469422520000000000000000000027525000000000000000000000000000475821920000000000000000000027512500000000000000000000000000435454710000000000000000000027500000000000000000000000000000444719880000000000000000000027487500000000000000000000000000426534950000000000000000000027475000000000000000000000000000423789850000000000000000000027462500000000000000000000000000450614680000000000000000000027450000000000000000000000000000479134940000000000000000000027437500000000000000000000000000470761040000000000000000000027425000000000000000000000000000467448080000000000000000000027412500000000000000000000000000496882070000000000000000000027400000000000000000000,
    476793070000000000000000000028987500000000000000000000000000460002240000000000000000000028975000000000000000000000000000454253680000000000000000000028962500000000000000000000000000451217120000000000000000000028950000000000000000000000000000449060110000000000000000000028937500000000000000000000000000439467990000000000000000000028925000000000000000000000000000416845110000000000000000000028912500000000000000000000000000426885100000000000000000000028900000000000000000000000000000471589400000000000000000000028887500000000000000000000000000448346870000000000000000000028875000000000000000000000000000435152980000000000000000000028862500000000000000000000000000457318070000000000000000000028850000000000000000000000000000451030080000000000000000000028837500000000000000000000000000459401720000000000000000000028825000000000000000000000000000487921030000000000000000000028812500000000000000000000000000475642770000000000000000000028800000000000000000000000000000448210400000000000000000000028787500000000000000000000000000444562430000000000000000000028775000000000000000000000000000476542290000000000000000000028762500000000000000000000000000477123600000000000000000000028750000000000000000000000000000475911640000000000000000000028737500000000000000000000000000434352660000000000000000000028725000000000000000000000000000452537940000000000000000000028712500000000000000000000000000486128100000000000000000000028700000000000000000000000000000456344720000000000000000000028687500000000000000000000000000478567640000000000000000000028675000000000000000000000000000459938950000000000000000000028662500000000000000000000000000456014230000000000000000000028650000000000000000000000000000456249530000000000000000000028637500000000000000000000000000444122300000000000000000000028625000000000000000000000000000485460340000000000000000000028612500000000000000000000000000495834710000000000000000000028600000000000000000000000000000479519630000000000000000000028587500000000000000000000000000445990030000000000000000000028575000000000000000000000000000469635150000000000000000000028562500000000000000000000000000454689300000000000000000000028550000000000000000000000000000491911230000000000000000000028537500000000000000000000000000463564320000000000000000000028525000000000000000000000000000460683280000000000000000000028512500000000000000000000000000445946300000000000000000000028500000000000000000000000000000437992690000000000000000000028487500000000000000000000000000446173090000000000000000000028475000000000000000000000000000453746570000000000000000000028462500000000000000000000000000455220160000000000000000000028450000000000000000000000000000457112300000000000000000000028437500000000000000000000000000446415140000000000000000000028425000000000000000000000000000454506710000000000000000000028412500000000000000000000000000454889710000000000000000000028400000000000000000000000000000473809370000000000000000000028387500000000000000000000000000491387370000000000000000000028375000000000000000000000000000480251010000000000000000000028362500000000000000000000000000460210460000000000000000000028350000000000000000000000000000490242910000000000000000000028337500000000000000000000000000474859620000000000000000000028325000000000000000000000000000466377130000000000000000000028312500000000000000000000000000486205450000000000000000000028300000000000000000000000000000478389020000000000000000000028287500000000000000000000000000498714050000000000000000000028275000000000000000000000000000482753720000000000000000000028262500000000000000000000000000475150420000000000000000000028250000000000000000000000000000468351450000000000000000000028237500000000000000000000000000444245400000000000000000000028225000000000000000000000000000447393820000000000000000000028212500000000000000000000000000462312090000000000000000000028200000000000000000000,
    466382370000000000000000000029787500000000000000000000000000488664220000000000000000000029775000000000000000000000000000485669930000000000000000000029762500000000000000000000000000483864560000000000000000000029750000000000000000000000000000501540490000000000000000000029737500000000000000000000000000459752800000000000000000000029725000000000000000000000000000447216120000000000000000000029712500000000000000000000000000436164140000000000000000000029700000000000000000000000000000478270010000000000000000000029687500000000000000000000000000477338040000000000000000000029675000000000000000000000000000429188030000000000000000000029662500000000000000000000000000450563170000000000000000000029650000000000000000000000000000425730280000000000000000000029637500000000000000000000000000452005450000000000000000000029625000000000000000000000000000469857560000000000000000000029612500000000000000000000000000483987460000000000000000000029600000000000000000000000000000478682940000000000000000000029587500000000000000000000000000443271200000000000000000000029575000000000000000000000000000429312670000000000000000000029562500000000000000000000000000442104810000000000000000000029550000000000000000000000000000431870430000000000000000000029537500000000000000000000000000402327480000000000000000000029525000000000000000000000000000422056970000000000000000000029512500000000000000000000000000464965300000000000000000000029500000000000000000000000000000486091300000000000000000000029487500000000000000000000000000459457870000000000000000000029475000000000000000000000000000474158280000000000000000000029462500000000000000000000000000453025760000000000000000000029450000000000000000000000000000473633540000000000000000000029437500000000000000000000000000463644600000000000000000000029425000000000000000000000000000438445350000000000000000000029412500000000000000000000000000452048560000000000000000000029400000000000000000000000000000446985550000000000000000000029387500000000000000000000000000427932390000000000000000000029375000000000000000000000000000469421700000000000000000000029362500000000000000000000000000441464320000000000000000000029350000000000000000000000000000437957700000000000000000000029337500000000000000000000000000426515490000000000000000000029325000000000000000000000000000463313390000000000000000000029312500000000000000000000000000450936200000000000000000000029300000000000000000000000000000459106770000000000000000000029287500000000000000000000000000457083810000000000000000000029275000000000000000000000000000467808640000000000000000000029262500000000000000000000000000433790650000000000000000000029250000000000000000000000000000446678610000000000000000000029237500000000000000000000000000457319290000000000000000000029225000000000000000000000000000460247940000000000000000000029212500000000000000000000000000464371310000000000000000000029200000000000000000000000000000426859200000000000000000000029187500000000000000000000000000441143590000000000000000000029175000000000000000000000000000465297450000000000000000000029162500000000000000000000000000467759630000000000000000000029150000000000000000000000000000443903840000000000000000000029137500000000000000000000000000442748750000000000000000000029125000000000000000000000000000453865300000000000000000000029112500000000000000000000000000438176890000000000000000000029100000000000000000000000000000442591190000000000000000000029087500000000000000000000000000474196740000000000000000000029075000000000000000000000000000461118100000000000000000000029062500000000000000000000000000460303060000000000000000000029050000000000000000000000000000522700590000000000000000000029037500000000000000000000000000512351420000000000000000000029025000000000000000000000000000499426710000000000000000000029012500000000000000000000000000473862310000000000000000000029000000000000000000000,
    518124490000000000000000000030587500000000000000000000000000512287510000000000000000000030575000000000000000000000000000485333860000000000000000000030562500000000000000000000000000460125310000000000000000000030550000000000000000000000000000457757290000000000000000000030537500000000000000000000000000507012700000000000000000000030525000000000000000000000000000512025030000000000000000000030512500000000000000000000000000501052170000000000000000000030500000000000000000000000000000450920640000000000000000000030487500000000000000000000000000440177360000000000000000000030475000000000000000000000000000435944990000000000000000000030462500000000000000000000000000416381110000000000000000000030450000000000000000000000000000439914090000000000000000000030437500000000000000000000000000435612560000000000000000000030425000000000000000000000000000428846000000000000000000000030412500000000000000000000000000460291340000000000000000000030400000000000000000000000000000467809630000000000000000000030387500000000000000000000000000470636120000000000000000000030375000000000000000000000000000450136650000000000000000000030362500000000000000000000000000442538030000000000000000000030350000000000000000000000000000471330610000000000000000000030337500000000000000000000000000489456670000000000000000000030325000000000000000000000000000467995460000000000000000000030312500000000000000000000000000461592500000000000000000000030300000000000000000000000000000502621690000000000000000000030287500000000000000000000000000490306310000000000000000000030275000000000000000000000000000422784640000000000000000000030262500000000000000000000000000459508320000000000000000000030250000000000000000000000000000467933060000000000000000000030237500000000000000000000000000470171900000000000000000000030225000000000000000000000000000436215650000000000000000000030212500000000000000000000000000490924010000000000000000000030200000000000000000000000000000497194720000000000000000000030187500000000000000000000000000465781690000000000000000000030175000000000000000000000000000460566050000000000000000000030162500000000000000000000000000438006290000000000000000000030150000000000000000000000000000428388460000000000000000000030137500000000000000000000000000427496060000000000000000000030125000000000000000000000000000472962610000000000000000000030112500000000000000000000000000477922110000000000000000000030100000000000000000000000000000464411100000000000000000000030087500000000000000000000000000512401640000000000000000000030075000000000000000000000000000476749450000000000000000000030062500000000000000000000000000489222420000000000000000000030050000000000000000000000000000496129840000000000000000000030037500000000000000000000000000448433100000000000000000000030025000000000000000000000000000418758780000000000000000000030012500000000000000000000000000418947290000000000000000000030000000000000000000000000000000418563760000000000000000000029987500000000000000000000000000438932420000000000000000000029975000000000000000000000000000436762300000000000000000000029962500000000000000000000000000482196000000000000000000000029950000000000000000000000000000497260290000000000000000000029937500000000000000000000000000448744530000000000000000000029925000000000000000000000000000423518550000000000000000000029912500000000000000000000000000438052850000000000000000000029900000000000000000000000000000434678070000000000000000000029887500000000000000000000000000421421810000000000000000000029875000000000000000000000000000434182540000000000000000000029862500000000000000000000000000466731410000000000000000000029850000000000000000000000000000471166030000000000000000000029837500000000000000000000000000494950920000000000000000000029825000000000000000000000000000475647460000000000000000000029812500000000000000000000000000467087650000000000000000000029800000000000000000000,
    458285940000000000000000000031387500000000000000000000000000445842670000000000000000000031375000000000000000000000000000485198950000000000000000000031362500000000000000000000000000440731140000000000000000000031350000000000000000000000000000444208270000000000000000000031337500000000000000000000000000439735230000000000000000000031325000000000000000000000000000450671470000000000000000000031312500000000000000000000000000410288910000000000000000000031300000000000000000000000000000428712090000000000000000000031287500000000000000000000000000445501770000000000000000000031275000000000000000000000000000444021720000000000000000000031262500000000000000000000000000434056560000000000000000000031250000000000000000000000000000460977460000000000000000000031237500000000000000000000000000470548370000000000000000000031225000000000000000000000000000464290630000000000000000000031212500000000000000000000000000463589290000000000000000000031200000000000000000000000000000464807390000000000000000000031187500000000000000000000000000477433930000000000000000000031175000000000000000000000000000449622560000000000000000000031162500000000000000000000000000466267290000000000000000000031150000000000000000000000000000467209820000000000000000000031137500000000000000000000000000459078640000000000000000000031125000000000000000000000000000458951230000000000000000000031112500000000000000000000000000432179440000000000000000000031100000000000000000000000000000438875560000000000000000000031087500000000000000000000000000480018740000000000000000000031075000000000000000000000000000445194950000000000000000000031062500000000000000000000000000458078810000000000000000000031050000000000000000000000000000456983910000000000000000000031037500000000000000000000000000472015470000000000000000000031025000000000000000000000000000437968020000000000000000000031012500000000000000000000000000447847320000000000000000000031000000000000000000000000000000461024800000000000000000000030987500000000000000000000000000478283630000000000000000000030975000000000000000000000000000473831920000000000000000000030962500000000000000000000000000489497170000000000000000000030950000000000000000000000000000465492550000000000000000000030937500000000000000000000000000492920430000000000000000000030925000000000000000000000000000472649820000000000000000000030912500000000000000000000000000482329190000000000000000000030900000000000000000000000000000489046640000000000000000000030887500000000000000000000000000460887110000000000000000000030875000000000000000000000000000406919680000000000000000000030862500000000000000000000000000419436400000000000000000000030850000000000000000000000000000460891350000000000000000000030837500000000000000000000000000487083660000000000000000000030825000000000000000000000000000438063470000000000000000000030812500000000000000000000000000423309070000000000000000000030800000000000000000000000000000453178060000000000000000000030787500000000000000000000000000491484650000000000000000000030775000000000000000000000000001850952400000000000000000000030762500000000000000000000000003370553500000000000000000000030750000000000000000000000000001696240300000000000000000000030737500000000000000000000000000539193260000000000000000000030725000000000000000000000000000486441390000000000000000000030712500000000000000000000000000440339980000000000000000000030700000000000000000000000000000432047340000000000000000000030687500000000000000000000000000482026890000000000000000000030675000000000000000000000000000509151060000000000000000000030662500000000000000000000000000552351320000000000000000000030650000000000000000000000000002117985200000000000000000000030637500000000000000000000000005975128000000000000000000000030625000000000000000000000000004296179400000000000000000000030612500000000000000000000000000788362880000000000000000000030600000000000000000000,
    475455610000000000000000000032187500000000000000000000000000480014490000000000000000000032175000000000000000000000000000502304440000000000000000000032162500000000000000000000000000453898950000000000000000000032150000000000000000000000000000478976130000000000000000000032137500000000000000000000000000462434860000000000000000000032125000000000000000000000000000474663540000000000000000000032112500000000000000000000000000475823030000000000000000000032100000000000000000000000000000473030970000000000000000000032087500000000000000000000000000450685370000000000000000000032075000000000000000000000000000429052440000000000000000000032062500000000000000000000000000452532880000000000000000000032050000000000000000000000000000460017720000000000000000000032037500000000000000000000000000464554990000000000000000000032025000000000000000000000000000477097010000000000000000000032012500000000000000000000000000500432570000000000000000000032000000000000000000000000000000483139240000000000000000000031987500000000000000000000000000460127550000000000000000000031975000000000000000000000000000453322330000000000000000000031962500000000000000000000000000451767860000000000000000000031950000000000000000000000000000460816380000000000000000000031937500000000000000000000000000464075120000000000000000000031925000000000000000000000000000469783100000000000000000000031912500000000000000000000000000432633610000000000000000000031900000000000000000000000000000469289530000000000000000000031887500000000000000000000000000498205020000000000000000000031875000000000000000000000000000486128550000000000000000000031862500000000000000000000000000474197990000000000000000000031850000000000000000000000000000478162730000000000000000000031837500000000000000000000000000453762380000000000000000000031825000000000000000000000000000501335970000000000000000000031812500000000000000000000000000501036670000000000000000000031800000000000000000000000000000457650030000000000000000000031787500000000000000000000000000447052480000000000000000000031775000000000000000000000000000472215030000000000000000000031762500000000000000000000000000450790300000000000000000000031750000000000000000000000000000418353780000000000000000000031737500000000000000000000000000451105580000000000000000000031725000000000000000000000000000473412710000000000000000000031712500000000000000000000000000464052120000000000000000000031700000000000000000000000000000450520060000000000000000000031687500000000000000000000000000475023270000000000000000000031675000000000000000000000000000471708140000000000000000000031662500000000000000000000000000471562620000000000000000000031650000000000000000000000000000460079490000000000000000000031637500000000000000000000000000449740280000000000000000000031625000000000000000000000000000443247840000000000000000000031612500000000000000000000000000438582760000000000000000000031600000000000000000000000000000460803640000000000000000000031587500000000000000000000000000471223140000000000000000000031575000000000000000000000000000472161690000000000000000000031562500000000000000000000000000480222510000000000000000000031550000000000000000000000000000552829790000000000000000000031537500000000000000000000000002305012200000000000000000000031525000000000000000000000000005372383800000000000000000000031512500000000000000000000000005952715800000000000000000000031500000000000000000000000000002302778900000000000000000000031487500000000000000000000000000770630420000000000000000000031475000000000000000000000000000498765290000000000000000000031462500000000000000000000000000471048480000000000000000000031450000000000000000000000000000448215290000000000000000000031437500000000000000000000000000439061570000000000000000000031425000000000000000000000000000460734450000000000000000000031412500000000000000000000000000461780680000000000000000000031400000000000000000000,
    473077210000000000000000000032987500000000000000000000000000463238610000000000000000000032975000000000000000000000000000452432300000000000000000000032962500000000000000000000000000470855650000000000000000000032950000000000000000000000000000465408930000000000000000000032937500000000000000000000000000480444500000000000000000000032925000000000000000000000000000451893330000000000000000000032912500000000000000000000000000443342400000000000000000000032900000000000000000000000000000449270530000000000000000000032887500000000000000000000000000447004360000000000000000000032875000000000000000000000000000463792140000000000000000000032862500000000000000000000000000480951080000000000000000000032850000000000000000000000000000458308520000000000000000000032837500000000000000000000000000415419490000000000000000000032825000000000000000000000000000404176100000000000000000000032812500000000000000000000000000464377300000000000000000000032800000000000000000000000000000466697390000000000000000000032787500000000000000000000000000462490700000000000000000000032775000000000000000000000000000459489650000000000000000000032762500000000000000000000000000453199810000000000000000000032750000000000000000000000000000486979410000000000000000000032737500000000000000000000000000470339570000000000000000000032725000000000000000000000000000457527680000000000000000000032712500000000000000000000000000460503790000000000000000000032700000000000000000000000000000472741450000000000000000000032687500000000000000000000000000476033830000000000000000000032675000000000000000000000000000457811440000000000000000000032662500000000000000000000000000464226840000000000000000000032650000000000000000000000000000451026190000000000000000000032637500000000000000000000000000420448010000000000000000000032625000000000000000000000000000452691700000000000000000000032612500000000000000000000000000443091980000000000000000000032600000000000000000000000000000411321530000000000000000000032587500000000000000000000000000420408850000000000000000000032575000000000000000000000000000464314800000000000000000000032562500000000000000000000000000465706310000000000000000000032550000000000000000000000000000477915950000000000000000000032537500000000000000000000000000507963180000000000000000000032525000000000000000000000000000513549460000000000000000000032512500000000000000000000000000462152180000000000000000000032500000000000000000000000000000460614380000000000000000000032487500000000000000000000000000449934850000000000000000000032475000000000000000000000000000437997190000000000000000000032462500000000000000000000000000441879770000000000000000000032450000000000000000000000000000459356060000000000000000000032437500000000000000000000000000456662970000000000000000000032425000000000000000000000000000429807810000000000000000000032412500000000000000000000000000453740270000000000000000000032400000000000000000000000000000482077240000000000000000000032387500000000000000000000000000500413360000000000000000000032375000000000000000000000000000489859840000000000000000000032362500000000000000000000000000500710350000000000000000000032350000000000000000000000000000501265440000000000000000000032337500000000000000000000000000457690430000000000000000000032325000000000000000000000000000437179970000000000000000000032312500000000000000000000000000465477640000000000000000000032300000000000000000000000000000447581760000000000000000000032287500000000000000000000000000455697880000000000000000000032275000000000000000000000000000474631900000000000000000000032262500000000000000000000000000451693400000000000000000000032250000000000000000000000000000454199750000000000000000000032237500000000000000000000000000459013440000000000000000000032225000000000000000000000000000440567970000000000000000000032212500000000000000000000000000474042780000000000000000000032200000000000000000000,
    467786170000000000000000000033787500000000000000000000000000466938890000000000000000000033775000000000000000000000000000455971580000000000000000000033762500000000000000000000000000481945460000000000000000000033750000000000000000000000000000476649780000000000000000000033737500000000000000000000000000458012920000000000000000000033725000000000000000000000000000492898690000000000000000000033712500000000000000000000000000506923780000000000000000000033700000000000000000000000000000484052090000000000000000000033687500000000000000000000000000493554920000000000000000000033675000000000000000000000000000473111620000000000000000000033662500000000000000000000000000487711690000000000000000000033650000000000000000000000000000481033390000000000000000000033637500000000000000000000000000449417150000000000000000000033625000000000000000000000000000428707920000000000000000000033612500000000000000000000000000434106760000000000000000000033600000000000000000000000000000487968580000000000000000000033587500000000000000000000000000462383150000000000000000000033575000000000000000000000000000481212010000000000000000000033562500000000000000000000000000505182770000000000000000000033550000000000000000000000000000479994760000000000000000000033537500000000000000000000000000454114420000000000000000000033525000000000000000000000000000497887270000000000000000000033512500000000000000000000000000491068220000000000000000000033500000000000000000000000000000461313710000000000000000000033487500000000000000000000000000463477570000000000000000000033475000000000000000000000000000475051130000000000000000000033462500000000000000000000000000480549820000000000000000000033450000000000000000000000000000481607730000000000000000000033437500000000000000000000000000478165770000000000000000000033425000000000000000000000000000436046900000000000000000000033412500000000000000000000000000457247090000000000000000000033400000000000000000000000000000462805900000000000000000000033387500000000000000000000000000454638220000000000000000000033375000000000000000000000000000478288560000000000000000000033362500000000000000000000000000462424420000000000000000000033350000000000000000000000000000439910230000000000000000000033337500000000000000000000000000493305990000000000000000000033325000000000000000000000000000484846190000000000000000000033312500000000000000000000000000500713440000000000000000000033300000000000000000000000000000449454160000000000000000000033287500000000000000000000000000466330840000000000000000000033275000000000000000000000000000500609050000000000000000000033262500000000000000000000000000482547100000000000000000000033250000000000000000000000000000457011680000000000000000000033237500000000000000000000000000458872920000000000000000000033225000000000000000000000000000475542310000000000000000000033212500000000000000000000000000505771230000000000000000000033200000000000000000000000000000470697450000000000000000000033187500000000000000000000000000470989400000000000000000000033175000000000000000000000000000500911890000000000000000000033162500000000000000000000000000484693540000000000000000000033150000000000000000000000000000476256260000000000000000000033137500000000000000000000000000485029120000000000000000000033125000000000000000000000000000483859040000000000000000000033112500000000000000000000000000467191240000000000000000000033100000000000000000000000000000443476730000000000000000000033087500000000000000000000000000463756140000000000000000000033075000000000000000000000000000486092200000000000000000000033062500000000000000000000000000415713900000000000000000000033050000000000000000000000000000449394950000000000000000000033037500000000000000000000000000485018060000000000000000000033025000000000000000000000000000487995220000000000000000000033012500000000000000000000000000495295030000000000000000000033000000000000000000000,
    481308420000000000000000000034587500000000000000000000000000468362200000000000000000000034575000000000000000000000000000460605100000000000000000000034562500000000000000000000000000457215410000000000000000000034550000000000000000000000000000503116630000000000000000000034537500000000000000000000000000501552080000000000000000000034525000000000000000000000000000466000140000000000000000000034512500000000000000000000000000460906880000000000000000000034500000000000000000000000000000492521450000000000000000000034487500000000000000000000000000500527360000000000000000000034475000000000000000000000000000488243850000000000000000000034462500000000000000000000000000456869870000000000000000000034450000000000000000000000000000457866230000000000000000000034437500000000000000000000000000495938120000000000000000000034425000000000000000000000000000491134080000000000000000000034412500000000000000000000000000497971440000000000000000000034400000000000000000000000000000496706230000000000000000000034387500000000000000000000000000479090510000000000000000000034375000000000000000000000000000525622040000000000000000000034362500000000000000000000000000522264220000000000000000000034350000000000000000000000000000515754720000000000000000000034337500000000000000000000000000456166180000000000000000000034325000000000000000000000000000449622830000000000000000000034312500000000000000000000000000447015340000000000000000000034300000000000000000000000000000479629750000000000000000000034287500000000000000000000000000485526040000000000000000000034275000000000000000000000000000435501620000000000000000000034262500000000000000000000000000431798070000000000000000000034250000000000000000000000000000470960400000000000000000000034237500000000000000000000000000470321590000000000000000000034225000000000000000000000000000457263560000000000000000000034212500000000000000000000000000461154370000000000000000000034200000000000000000000000000000444434150000000000000000000034187500000000000000000000000000455046930000000000000000000034175000000000000000000000000000502040410000000000000000000034162500000000000000000000000000499156660000000000000000000034150000000000000000000000000000465098760000000000000000000034137500000000000000000000000000452800600000000000000000000034125000000000000000000000000000490486360000000000000000000034112500000000000000000000000000492936450000000000000000000034100000000000000000000000000000489693790000000000000000000034087500000000000000000000000000450325330000000000000000000034075000000000000000000000000000466500540000000000000000000034062500000000000000000000000000529596450000000000000000000034050000000000000000000000000000512247750000000000000000000034037500000000000000000000000000516690110000000000000000000034025000000000000000000000000000435081950000000000000000000034012500000000000000000000000000444734990000000000000000000034000000000000000000000000000000510832500000000000000000000033987500000000000000000000000000505039740000000000000000000033975000000000000000000000000000493191260000000000000000000033962500000000000000000000000000438695750000000000000000000033950000000000000000000000000000471465920000000000000000000033937500000000000000000000000000467434850000000000000000000033925000000000000000000000000000483119410000000000000000000033912500000000000000000000000000461913380000000000000000000033900000000000000000000000000000430608340000000000000000000033887500000000000000000000000000471717650000000000000000000033875000000000000000000000000000466561880000000000000000000033862500000000000000000000000000470916460000000000000000000033850000000000000000000000000000477293660000000000000000000033837500000000000000000000000000449292460000000000000000000033825000000000000000000000000000466620900000000000000000000033812500000000000000000000000000471525850000000000000000000033800000000000000000000,
    484216070000000000000000000035387500000000000000000000000000480382200000000000000000000035375000000000000000000000000000510631310000000000000000000035362500000000000000000000000000475865530000000000000000000035350000000000000000000000000000459634810000000000000000000035337500000000000000000000000000487149480000000000000000000035325000000000000000000000000000504369790000000000000000000035312500000000000000000000000000466662890000000000000000000035300000000000000000000000000000436121200000000000000000000035287500000000000000000000000000445243200000000000000000000035275000000000000000000000000000480941710000000000000000000035262500000000000000000000000000483090580000000000000000000035250000000000000000000000000000502384870000000000000000000035237500000000000000000000000000497381230000000000000000000035225000000000000000000000000000492676980000000000000000000035212500000000000000000000000000475080330000000000000000000035200000000000000000000000000000514974740000000000000000000035187500000000000000000000000000468910480000000000000000000035175000000000000000000000000000446263830000000000000000000035162500000000000000000000000000436979320000000000000000000035150000000000000000000000000000429183830000000000000000000035137500000000000000000000000000425698860000000000000000000035125000000000000000000000000000475854490000000000000000000035112500000000000000000000000000460729500000000000000000000035100000000000000000000000000000452636080000000000000000000035087500000000000000000000000000449343110000000000000000000035075000000000000000000000000000502636530000000000000000000035062500000000000000000000000000517441470000000000000000000035050000000000000000000000000000510256340000000000000000000035037500000000000000000000000000502037300000000000000000000035025000000000000000000000000000478178050000000000000000000035012500000000000000000000000000473179790000000000000000000035000000000000000000000000000000507005900000000000000000000034987500000000000000000000000000496010730000000000000000000034975000000000000000000000000000486953310000000000000000000034962500000000000000000000000000517773380000000000000000000034950000000000000000000000000000497845780000000000000000000034937500000000000000000000000000478613080000000000000000000034925000000000000000000000000000452268640000000000000000000034912500000000000000000000000000453101330000000000000000000034900000000000000000000000000000480977160000000000000000000034887500000000000000000000000000466263710000000000000000000034875000000000000000000000000000440858070000000000000000000034862500000000000000000000000000453275740000000000000000000034850000000000000000000000000000469113630000000000000000000034837500000000000000000000000000506941670000000000000000000034825000000000000000000000000000487718030000000000000000000034812500000000000000000000000000454979280000000000000000000034800000000000000000000000000000463460340000000000000000000034787500000000000000000000000000495462140000000000000000000034775000000000000000000000000000489596590000000000000000000034762500000000000000000000000000470713130000000000000000000034750000000000000000000000000000453874910000000000000000000034737500000000000000000000000000425800020000000000000000000034725000000000000000000000000000415118490000000000000000000034712500000000000000000000000000448324530000000000000000000034700000000000000000000000000000477451830000000000000000000034687500000000000000000000000000476950390000000000000000000034675000000000000000000000000000504031780000000000000000000034662500000000000000000000000000475702300000000000000000000034650000000000000000000000000000465459890000000000000000000034637500000000000000000000000000461120190000000000000000000034625000000000000000000000000000477508050000000000000000000034612500000000000000000000000000471715150000000000000000000034600000000000000000000,
    476223350000000000000000000036187500000000000000000000000000471674750000000000000000000036175000000000000000000000000000451671540000000000000000000036162500000000000000000000000000446328810000000000000000000036150000000000000000000000000000473077500000000000000000000036137500000000000000000000000000468658700000000000000000000036125000000000000000000000000000445808770000000000000000000036112500000000000000000000000000466990370000000000000000000036100000000000000000000000000000501792200000000000000000000036087500000000000000000000000000500500170000000000000000000036075000000000000000000000000000513119690000000000000000000036062500000000000000000000000000479837030000000000000000000036050000000000000000000000000000456407450000000000000000000036037500000000000000000000000000451811500000000000000000000036025000000000000000000000000000558775130000000000000000000036012500000000000000000000000000773253340000000000000000000036000000000000000000000000000000700136660000000000000000000035987500000000000000000000000000519673080000000000000000000035975000000000000000000000000000452114920000000000000000000035962500000000000000000000000000470957350000000000000000000035950000000000000000000000000000498725620000000000000000000035937500000000000000000000000000507357570000000000000000000035925000000000000000000000000000498961130000000000000000000035912500000000000000000000000000467967630000000000000000000035900000000000000000000000000000454334280000000000000000000035887500000000000000000000000000473924720000000000000000000035875000000000000000000000000000500213630000000000000000000035862500000000000000000000000000456892620000000000000000000035850000000000000000000000000000507132770000000000000000000035837500000000000000000000000000505849130000000000000000000035825000000000000000000000000000471861670000000000000000000035812500000000000000000000000000455623670000000000000000000035800000000000000000000000000000449153990000000000000000000035787500000000000000000000000000484672760000000000000000000035775000000000000000000000000000508317150000000000000000000035762500000000000000000000000000487628740000000000000000000035750000000000000000000000000000482577430000000000000000000035737500000000000000000000000000448612110000000000000000000035725000000000000000000000000000452234700000000000000000000035712500000000000000000000000000475856320000000000000000000035700000000000000000000000000000499019240000000000000000000035687500000000000000000000000000470454010000000000000000000035675000000000000000000000000000459979020000000000000000000035662500000000000000000000000000461606940000000000000000000035650000000000000000000000000000441716120000000000000000000035637500000000000000000000000000418362120000000000000000000035625000000000000000000000000000466956340000000000000000000035612500000000000000000000000000506526200000000000000000000035600000000000000000000000000000477548740000000000000000000035587500000000000000000000000000454041500000000000000000000035575000000000000000000000000000447471660000000000000000000035562500000000000000000000000000463050700000000000000000000035550000000000000000000000000000462361680000000000000000000035537500000000000000000000000000478071260000000000000000000035525000000000000000000000000000486851490000000000000000000035512500000000000000000000000000495164870000000000000000000035500000000000000000000000000000465151560000000000000000000035487500000000000000000000000000472441380000000000000000000035475000000000000000000000000000480947210000000000000000000035462500000000000000000000000000461307010000000000000000000035450000000000000000000000000000497906610000000000000000000035437500000000000000000000000000522441770000000000000000000035425000000000000000000000000000492310330000000000000000000035412500000000000000000000000000481076600000000000000000000035400000000000000000000,
    468738760000000000000000000036987500000000000000000000000000495122590000000000000000000036975000000000000000000000000000458189210000000000000000000036962500000000000000000000000000418763040000000000000000000036950000000000000000000000000000423886470000000000000000000036937500000000000000000000000000460606690000000000000000000036925000000000000000000000000000486785370000000000000000000036912500000000000000000000000000490811680000000000000000000036900000000000000000000000000000473004310000000000000000000036887500000000000000000000000000505290380000000000000000000036875000000000000000000000000000494257830000000000000000000036862500000000000000000000000000459735460000000000000000000036850000000000000000000000000000466704930000000000000000000036837500000000000000000000000000455422560000000000000000000036825000000000000000000000000000471033570000000000000000000036812500000000000000000000000000454468620000000000000000000036800000000000000000000000000000464147990000000000000000000036787500000000000000000000000000464669320000000000000000000036775000000000000000000000000000456510850000000000000000000036762500000000000000000000000000482195960000000000000000000036750000000000000000000000000000504068930000000000000000000036737500000000000000000000000000469951490000000000000000000036725000000000000000000000000000477382700000000000000000000036712500000000000000000000000000484314210000000000000000000036700000000000000000000000000000505660550000000000000000000036687500000000000000000000000000486474750000000000000000000036675000000000000000000000000000499469030000000000000000000036662500000000000000000000000000516847680000000000000000000036650000000000000000000000000000463238110000000000000000000036637500000000000000000000000000454322730000000000000000000036625000000000000000000000000000491519180000000000000000000036612500000000000000000000000000463486270000000000000000000036600000000000000000000000000000460613120000000000000000000036587500000000000000000000000000504783940000000000000000000036575000000000000000000000000000486125520000000000000000000036562500000000000000000000000000489131790000000000000000000036550000000000000000000000000000487025390000000000000000000036537500000000000000000000000000478210200000000000000000000036525000000000000000000000000000494846180000000000000000000036512500000000000000000000000000442399430000000000000000000036500000000000000000000000000000448603240000000000000000000036487500000000000000000000000000456153460000000000000000000036475000000000000000000000000000472166660000000000000000000036462500000000000000000000000000488803560000000000000000000036450000000000000000000000000000494995390000000000000000000036437500000000000000000000000000482053970000000000000000000036425000000000000000000000000000488142790000000000000000000036412500000000000000000000000000483365770000000000000000000036400000000000000000000000000000483600340000000000000000000036387500000000000000000000000000461539070000000000000000000036375000000000000000000000000000478810730000000000000000000036362500000000000000000000000000465205320000000000000000000036350000000000000000000000000000447222010000000000000000000036337500000000000000000000000000481182150000000000000000000036325000000000000000000000000000461992580000000000000000000036312500000000000000000000000000455484260000000000000000000036300000000000000000000000000000458469340000000000000000000036287500000000000000000000000000466962520000000000000000000036275000000000000000000000000000487075130000000000000000000036262500000000000000000000000000483792910000000000000000000036250000000000000000000000000000472876020000000000000000000036237500000000000000000000000000477912840000000000000000000036225000000000000000000000000000454949690000000000000000000036212500000000000000000000000000449595420000000000000000000036200000000000000000000,
    520245470000000000000000000037787500000000000000000000000000542039730000000000000000000037775000000000000000000000000000506727430000000000000000000037762500000000000000000000000000511932640000000000000000000037750000000000000000000000000000500323450000000000000000000037737500000000000000000000000000508989460000000000000000000037725000000000000000000000000000511785120000000000000000000037712500000000000000000000000000511854160000000000000000000037700000000000000000000000000000524786050000000000000000000037687500000000000000000000000000503964390000000000000000000037675000000000000000000000000000476919610000000000000000000037662500000000000000000000000000483257620000000000000000000037650000000000000000000000000000478381220000000000000000000037637500000000000000000000000000497292570000000000000000000037625000000000000000000000000000481595250000000000000000000037612500000000000000000000000000497257110000000000000000000037600000000000000000000000000000523371090000000000000000000037587500000000000000000000000000473671860000000000000000000037575000000000000000000000000000490985880000000000000000000037562500000000000000000000000000485310070000000000000000000037550000000000000000000000000000455796910000000000000000000037537500000000000000000000000000499438420000000000000000000037525000000000000000000000000000477561200000000000000000000037512500000000000000000000000000431599720000000000000000000037500000000000000000000000000000422032470000000000000000000037487500000000000000000000000000457396800000000000000000000037475000000000000000000000000000493527940000000000000000000037462500000000000000000000000000441282260000000000000000000037450000000000000000000000000000441086660000000000000000000037437500000000000000000000000000498314030000000000000000000037425000000000000000000000000000491031220000000000000000000037412500000000000000000000000000460912430000000000000000000037400000000000000000000000000000465288830000000000000000000037387500000000000000000000000000498652930000000000000000000037375000000000000000000000000000515290100000000000000000000037362500000000000000000000000000482387870000000000000000000037350000000000000000000000000000485189040000000000000000000037337500000000000000000000000000465693580000000000000000000037325000000000000000000000000000456951590000000000000000000037312500000000000000000000000000488424940000000000000000000037300000000000000000000000000000467039250000000000000000000037287500000000000000000000000000476650460000000000000000000037275000000000000000000000000000475944220000000000000000000037262500000000000000000000000000443725300000000000000000000037250000000000000000000000000000451019990000000000000000000037237500000000000000000000000000494819750000000000000000000037225000000000000000000000000000497716470000000000000000000037212500000000000000000000000000477198590000000000000000000037200000000000000000000000000000470905480000000000000000000037187500000000000000000000000000510491470000000000000000000037175000000000000000000000000000496304190000000000000000000037162500000000000000000000000000464131080000000000000000000037150000000000000000000000000000466534960000000000000000000037137500000000000000000000000000497728300000000000000000000037125000000000000000000000000000486690150000000000000000000037112500000000000000000000000000483765940000000000000000000037100000000000000000000000000000483061710000000000000000000037087500000000000000000000000000487377630000000000000000000037075000000000000000000000000000474025180000000000000000000037062500000000000000000000000000453195010000000000000000000037050000000000000000000000000000496445060000000000000000000037037500000000000000000000000000488828960000000000000000000037025000000000000000000000000000457742700000000000000000000037012500000000000000000000000000476018130000000000000000000037000000000000000000000,
    455901500000000000000000000038587500000000000000000000000000477106720000000000000000000038575000000000000000000000000000431711590000000000000000000038562500000000000000000000000000480926430000000000000000000038550000000000000000000000000000494673720000000000000000000038537500000000000000000000000000443993870000000000000000000038525000000000000000000000000000481329100000000000000000000038512500000000000000000000000000504790560000000000000000000038500000000000000000000000000000486570760000000000000000000038487500000000000000000000000000433109550000000000000000000038475000000000000000000000000000445782350000000000000000000038462500000000000000000000000000438638400000000000000000000038450000000000000000000000000000454087150000000000000000000038437500000000000000000000000000463726460000000000000000000038425000000000000000000000000000493533860000000000000000000038412500000000000000000000000000495473870000000000000000000038400000000000000000000000000000498644570000000000000000000038387500000000000000000000000000483936370000000000000000000038375000000000000000000000000000438965610000000000000000000038362500000000000000000000000000419009710000000000000000000038350000000000000000000000000000444468960000000000000000000038337500000000000000000000000000484856130000000000000000000038325000000000000000000000000000459351310000000000000000000038312500000000000000000000000000491365940000000000000000000038300000000000000000000000000000501018290000000000000000000038287500000000000000000000000000458350400000000000000000000038275000000000000000000000000000453234000000000000000000000038262500000000000000000000000000450253670000000000000000000038250000000000000000000000000000502987870000000000000000000038237500000000000000000000000000533756880000000000000000000038225000000000000000000000000000491578940000000000000000000038212500000000000000000000000000477078460000000000000000000038200000000000000000000000000000561426790000000000000000000038187500000000000000000000000000554103320000000000000000000038175000000000000000000000000000504152090000000000000000000038162500000000000000000000000000545258910000000000000000000038150000000000000000000000000000458694860000000000000000000038137500000000000000000000000000430841260000000000000000000038125000000000000000000000000000480525820000000000000000000038112500000000000000000000000000488533810000000000000000000038100000000000000000000000000000491839520000000000000000000038087500000000000000000000000000489106460000000000000000000038075000000000000000000000000000479597660000000000000000000038062500000000000000000000000000485395820000000000000000000038050000000000000000000000000000470203600000000000000000000038037500000000000000000000000000451054450000000000000000000038025000000000000000000000000000456972520000000000000000000038012500000000000000000000000000440388930000000000000000000038000000000000000000000000000000475269330000000000000000000037987500000000000000000000000000498075470000000000000000000037975000000000000000000000000000498717500000000000000000000037962500000000000000000000000000467191620000000000000000000037950000000000000000000000000000473716370000000000000000000037937500000000000000000000000000438478860000000000000000000037925000000000000000000000000000453224810000000000000000000037912500000000000000000000000000507167420000000000000000000037900000000000000000000000000000497145980000000000000000000037887500000000000000000000000000471599780000000000000000000037875000000000000000000000000000498849430000000000000000000037862500000000000000000000000000487290880000000000000000000037850000000000000000000000000000489298200000000000000000000037837500000000000000000000000000469817040000000000000000000037825000000000000000000000000000482763230000000000000000000037812500000000000000000000000000504596980000000000000000000037800000000000000000000,
    452286630000000000000000000039387500000000000000000000000000476549210000000000000000000039375000000000000000000000000000474840810000000000000000000039362500000000000000000000000000477688790000000000000000000039350000000000000000000000000000504267890000000000000000000039337500000000000000000000000000470163340000000000000000000039325000000000000000000000000000511557800000000000000000000039312500000000000000000000000000519979920000000000000000000039300000000000000000000000000000478872810000000000000000000039287500000000000000000000000000474609270000000000000000000039275000000000000000000000000000485222360000000000000000000039262500000000000000000000000000523428440000000000000000000039250000000000000000000000000000513692900000000000000000000039237500000000000000000000000000497937240000000000000000000039225000000000000000000000000000456820320000000000000000000039212500000000000000000000000000463668120000000000000000000039200000000000000000000000000000481928360000000000000000000039187500000000000000000000000000477879430000000000000000000039175000000000000000000000000000436545940000000000000000000039162500000000000000000000000000441055100000000000000000000039150000000000000000000000000000473543720000000000000000000039137500000000000000000000000000475249260000000000000000000039125000000000000000000000000000464365540000000000000000000039112500000000000000000000000000431533970000000000000000000039100000000000000000000000000000449194410000000000000000000039087500000000000000000000000000459307260000000000000000000039075000000000000000000000000000440243850000000000000000000039062500000000000000000000000000477848440000000000000000000039050000000000000000000000000000522695410000000000000000000039037500000000000000000000000000496797290000000000000000000039025000000000000000000000000000464570860000000000000000000039012500000000000000000000000000481853060000000000000000000039000000000000000000000000000000498807350000000000000000000038987500000000000000000000000000504687060000000000000000000038975000000000000000000000000000510552840000000000000000000038962500000000000000000000000000535892540000000000000000000038950000000000000000000000000000503912250000000000000000000038937500000000000000000000000000491033530000000000000000000038925000000000000000000000000000521587050000000000000000000038912500000000000000000000000000510377130000000000000000000038900000000000000000000000000000477868010000000000000000000038887500000000000000000000000000487740030000000000000000000038875000000000000000000000000000502408940000000000000000000038862500000000000000000000000000498213920000000000000000000038850000000000000000000000000000529354720000000000000000000038837500000000000000000000000000495345470000000000000000000038825000000000000000000000000000482306350000000000000000000038812500000000000000000000000000506231700000000000000000000038800000000000000000000000000000502197290000000000000000000038787500000000000000000000000000495430120000000000000000000038775000000000000000000000000000499031760000000000000000000038762500000000000000000000000000515838920000000000000000000038750000000000000000000000000000523998870000000000000000000038737500000000000000000000000000497478870000000000000000000038725000000000000000000000000000487356080000000000000000000038712500000000000000000000000000457176680000000000000000000038700000000000000000000000000000443621140000000000000000000038687500000000000000000000000000472936590000000000000000000038675000000000000000000000000000495685640000000000000000000038662500000000000000000000000000484827450000000000000000000038650000000000000000000000000000459076220000000000000000000038637500000000000000000000000000504500610000000000000000000038625000000000000000000000000000472663120000000000000000000038612500000000000000000000000000449473560000000000000000000038600000000000000000000,
    506230580000000000000000000040187500000000000000000000000000498443280000000000000000000040175000000000000000000000000000513126220000000000000000000040162500000000000000000000000000545758470000000000000000000040150000000000000000000000000000552368970000000000000000000040137500000000000000000000000000525693950000000000000000000040125000000000000000000000000000541039420000000000000000000040112500000000000000000000000000534611720000000000000000000040100000000000000000000000000000494297180000000000000000000040087500000000000000000000000000500862360000000000000000000040075000000000000000000000000000530962450000000000000000000040062500000000000000000000000000487641020000000000000000000040050000000000000000000000000000503795830000000000000000000040037500000000000000000000000000458542340000000000000000000040025000000000000000000000000000478711320000000000000000000040012500000000000000000000000000523605360000000000000000000040000000000000000000000000000000490590780000000000000000000039987500000000000000000000000000505703800000000000000000000039975000000000000000000000000000521495860000000000000000000039962500000000000000000000000000536623870000000000000000000039950000000000000000000000000000516851900000000000000000000039937500000000000000000000000000477494190000000000000000000039925000000000000000000000000000473732130000000000000000000039912500000000000000000000000000513118610000000000000000000039900000000000000000000000000000515903350000000000000000000039887500000000000000000000000000498341850000000000000000000039875000000000000000000000000000509061470000000000000000000039862500000000000000000000000000519755550000000000000000000039850000000000000000000000000000530553180000000000000000000039837500000000000000000000000000530443870000000000000000000039825000000000000000000000000000527922540000000000000000000039812500000000000000000000000000496358550000000000000000000039800000000000000000000000000000471302370000000000000000000039787500000000000000000000000000481640990000000000000000000039775000000000000000000000000000486527680000000000000000000039762500000000000000000000000000493664430000000000000000000039750000000000000000000000000000534390540000000000000000000039737500000000000000000000000000549479440000000000000000000039725000000000000000000000000000497154570000000000000000000039712500000000000000000000000000457863440000000000000000000039700000000000000000000000000000483931000000000000000000000039687500000000000000000000000000486519780000000000000000000039675000000000000000000000000000450680660000000000000000000039662500000000000000000000000000464649360000000000000000000039650000000000000000000000000000493267370000000000000000000039637500000000000000000000000000472780940000000000000000000039625000000000000000000000000000476244460000000000000000000039612500000000000000000000000000469951460000000000000000000039600000000000000000000000000000478969090000000000000000000039587500000000000000000000000000547351870000000000000000000039575000000000000000000000000000528374200000000000000000000039562500000000000000000000000000501302580000000000000000000039550000000000000000000000000000480566310000000000000000000039537500000000000000000000000000445928840000000000000000000039525000000000000000000000000000462710800000000000000000000039512500000000000000000000000000482908380000000000000000000039500000000000000000000000000000490012750000000000000000000039487500000000000000000000000000479363780000000000000000000039475000000000000000000000000000446124830000000000000000000039462500000000000000000000000000478138860000000000000000000039450000000000000000000000000000491232390000000000000000000039437500000000000000000000000000495095820000000000000000000039425000000000000000000000000000463478290000000000000000000039412500000000000000000000000000454362830000000000000000000039400000000000000000000,
    472467480000000000000000000040987500000000000000000000000000507001270000000000000000000040975000000000000000000000000000495865910000000000000000000040962500000000000000000000000000502392840000000000000000000040950000000000000000000000000000505837170000000000000000000040937500000000000000000000000000491288210000000000000000000040925000000000000000000000000000467776710000000000000000000040912500000000000000000000000000467532950000000000000000000040900000000000000000000000000000506907670000000000000000000040887500000000000000000000000000502362820000000000000000000040875000000000000000000000000000457965010000000000000000000040862500000000000000000000000000521580720000000000000000000040850000000000000000000000000000544349010000000000000000000040837500000000000000000000000000516685080000000000000000000040825000000000000000000000000000481633850000000000000000000040812500000000000000000000000000506143800000000000000000000040800000000000000000000000000000501759720000000000000000000040787500000000000000000000000000455695070000000000000000000040775000000000000000000000000000471671210000000000000000000040762500000000000000000000000000479572940000000000000000000040750000000000000000000000000000485745250000000000000000000040737500000000000000000000000000492892410000000000000000000040725000000000000000000000000000478892780000000000000000000040712500000000000000000000000000458313130000000000000000000040700000000000000000000000000000481916110000000000000000000040687500000000000000000000000000470237870000000000000000000040675000000000000000000000000000477076850000000000000000000040662500000000000000000000000000506715520000000000000000000040650000000000000000000000000000510564600000000000000000000040637500000000000000000000000000556442470000000000000000000040625000000000000000000000000000549439290000000000000000000040612500000000000000000000000000523946570000000000000000000040600000000000000000000000000000476110120000000000000000000040587500000000000000000000000000493460470000000000000000000040575000000000000000000000000000540408280000000000000000000040562500000000000000000000000000533068820000000000000000000040550000000000000000000000000000509582040000000000000000000040537500000000000000000000000000506688380000000000000000000040525000000000000000000000000000494297870000000000000000000040512500000000000000000000000000536878740000000000000000000040500000000000000000000000000000511815260000000000000000000040487500000000000000000000000000536119350000000000000000000040475000000000000000000000000000542689600000000000000000000040462500000000000000000000000000542218190000000000000000000040450000000000000000000000000000548712600000000000000000000040437500000000000000000000000000572593840000000000000000000040425000000000000000000000000000540980940000000000000000000040412500000000000000000000000000510787430000000000000000000040400000000000000000000000000000529388430000000000000000000040387500000000000000000000000000506188970000000000000000000040375000000000000000000000000000528567680000000000000000000040362500000000000000000000000000529939570000000000000000000040350000000000000000000000000000512965340000000000000000000040337500000000000000000000000000514968440000000000000000000040325000000000000000000000000000500822300000000000000000000040312500000000000000000000000000517636590000000000000000000040300000000000000000000000000000581094140000000000000000000040287500000000000000000000000000556610060000000000000000000040275000000000000000000000000000502589370000000000000000000040262500000000000000000000000000477427960000000000000000000040250000000000000000000000000000493667510000000000000000000040237500000000000000000000000000499635350000000000000000000040225000000000000000000000000000490848460000000000000000000040212500000000000000000000000000465585210000000000000000000040200000000000000000000,
    488863490000000000000000000041787500000000000000000000000000454333400000000000000000000041775000000000000000000000000000478698470000000000000000000041762500000000000000000000000000494221610000000000000000000041750000000000000000000000000000499010360000000000000000000041737500000000000000000000000000538246320000000000000000000041725000000000000000000000000000502109880000000000000000000041712500000000000000000000000000454239440000000000000000000041700000000000000000000000000000485921660000000000000000000041687500000000000000000000000000444705620000000000000000000041675000000000000000000000000000472051540000000000000000000041662500000000000000000000000000501981580000000000000000000041650000000000000000000000000000506882150000000000000000000041637500000000000000000000000000527947340000000000000000000041625000000000000000000000000000469532180000000000000000000041612500000000000000000000000000463160060000000000000000000041600000000000000000000000000000498722370000000000000000000041587500000000000000000000000000484382630000000000000000000041575000000000000000000000000000469787280000000000000000000041562500000000000000000000000000481888750000000000000000000041550000000000000000000000000000512290960000000000000000000041537500000000000000000000000000493636700000000000000000000041525000000000000000000000000000472335160000000000000000000041512500000000000000000000000000505091130000000000000000000041500000000000000000000000000000492568810000000000000000000041487500000000000000000000000000455699650000000000000000000041475000000000000000000000000000504462900000000000000000000041462500000000000000000000000000522107780000000000000000000041450000000000000000000000000000511595790000000000000000000041437500000000000000000000000000478534370000000000000000000041425000000000000000000000000000494312140000000000000000000041412500000000000000000000000000491828110000000000000000000041400000000000000000000000000000504468750000000000000000000041387500000000000000000000000000466044660000000000000000000041375000000000000000000000000000473435060000000000000000000041362500000000000000000000000000484384420000000000000000000041350000000000000000000000000000484722190000000000000000000041337500000000000000000000000000504498930000000000000000000041325000000000000000000000000000486020530000000000000000000041312500000000000000000000000000490140520000000000000000000041300000000000000000000000000000524085010000000000000000000041287500000000000000000000000000500578790000000000000000000041275000000000000000000000000000490433320000000000000000000041262500000000000000000000000000491921750000000000000000000041250000000000000000000000000000500383930000000000000000000041237500000000000000000000000000491731950000000000000000000041225000000000000000000000000000491411780000000000000000000041212500000000000000000000000000485108540000000000000000000041200000000000000000000000000000470850020000000000000000000041187500000000000000000000000000466850540000000000000000000041175000000000000000000000000000494224440000000000000000000041162500000000000000000000000000469657650000000000000000000041150000000000000000000000000000474946280000000000000000000041137500000000000000000000000000467511330000000000000000000041125000000000000000000000000000475599300000000000000000000041112500000000000000000000000000452456290000000000000000000041100000000000000000000000000000477187340000000000000000000041087500000000000000000000000000479610900000000000000000000041075000000000000000000000000000475889020000000000000000000041062500000000000000000000000000470752300000000000000000000041050000000000000000000000000000467412380000000000000000000041037500000000000000000000000000495234840000000000000000000041025000000000000000000000000000501603540000000000000000000041012500000000000000000000000000465016210000000000000000000041000000000000000000000,
    471438330000000000000000000042587500000000000000000000000000450331150000000000000000000042575000000000000000000000000000440224490000000000000000000042562500000000000000000000000000487657180000000000000000000042550000000000000000000000000000482194160000000000000000000042537500000000000000000000000000476625050000000000000000000042525000000000000000000000000000474740470000000000000000000042512500000000000000000000000000502391990000000000000000000042500000000000000000000000000000478958050000000000000000000042487500000000000000000000000000474545420000000000000000000042475000000000000000000000000000482028430000000000000000000042462500000000000000000000000000458435300000000000000000000042450000000000000000000000000000473160630000000000000000000042437500000000000000000000000000463080720000000000000000000042425000000000000000000000000000497786790000000000000000000042412500000000000000000000000000450484940000000000000000000042400000000000000000000000000000481958520000000000000000000042387500000000000000000000000000518931950000000000000000000042375000000000000000000000000000487703700000000000000000000042362500000000000000000000000000476502710000000000000000000042350000000000000000000000000000491678160000000000000000000042337500000000000000000000000000457097610000000000000000000042325000000000000000000000000000483815760000000000000000000042312500000000000000000000000000499225070000000000000000000042300000000000000000000000000000530371810000000000000000000042287500000000000000000000000000502259200000000000000000000042275000000000000000000000000000476786190000000000000000000042262500000000000000000000000000480820520000000000000000000042250000000000000000000000000000482658150000000000000000000042237500000000000000000000000000470007100000000000000000000042225000000000000000000000000000462550050000000000000000000042212500000000000000000000000000490206690000000000000000000042200000000000000000000000000000515746400000000000000000000042187500000000000000000000000000509325020000000000000000000042175000000000000000000000000000470362700000000000000000000042162500000000000000000000000000453560620000000000000000000042150000000000000000000000000000510901840000000000000000000042137500000000000000000000000000547033510000000000000000000042125000000000000000000000000000527361490000000000000000000042112500000000000000000000000000521140270000000000000000000042100000000000000000000000000000493638550000000000000000000042087500000000000000000000000000520464480000000000000000000042075000000000000000000000000000544811380000000000000000000042062500000000000000000000000000499605410000000000000000000042050000000000000000000000000000466680890000000000000000000042037500000000000000000000000000492961900000000000000000000042025000000000000000000000000000514580440000000000000000000042012500000000000000000000000000531363870000000000000000000042000000000000000000000000000000519758890000000000000000000041987500000000000000000000000000477606410000000000000000000041975000000000000000000000000000487271660000000000000000000041962500000000000000000000000000469167870000000000000000000041950000000000000000000000000000476744440000000000000000000041937500000000000000000000000000452131160000000000000000000041925000000000000000000000000000516659320000000000000000000041912500000000000000000000000000498071470000000000000000000041900000000000000000000000000000494832110000000000000000000041887500000000000000000000000000516483660000000000000000000041875000000000000000000000000000521180680000000000000000000041862500000000000000000000000000497238090000000000000000000041850000000000000000000000000000508377040000000000000000000041837500000000000000000000000000472425230000000000000000000041825000000000000000000000000000513760950000000000000000000041812500000000000000000000000000473127700000000000000000000041800000000000000000000,
    499817780000000000000000000043387500000000000000000000000000533269340000000000000000000043375000000000000000000000000000533895100000000000000000000043362500000000000000000000000000521070590000000000000000000043350000000000000000000000000000484268530000000000000000000043337500000000000000000000000000491871090000000000000000000043325000000000000000000000000000529792900000000000000000000043312500000000000000000000000000507849740000000000000000000043300000000000000000000000000000507976590000000000000000000043287500000000000000000000000000490887440000000000000000000043275000000000000000000000000000514160550000000000000000000043262500000000000000000000000000562867400000000000000000000043250000000000000000000000000000579559190000000000000000000043237500000000000000000000000000547332650000000000000000000043225000000000000000000000000000503526980000000000000000000043212500000000000000000000000000514839260000000000000000000043200000000000000000000000000000506533830000000000000000000043187500000000000000000000000000510590880000000000000000000043175000000000000000000000000000508532180000000000000000000043162500000000000000000000000000481080720000000000000000000043150000000000000000000000000000483361380000000000000000000043137500000000000000000000000000497755940000000000000000000043125000000000000000000000000000491742330000000000000000000043112500000000000000000000000000493123740000000000000000000043100000000000000000000000000000481893900000000000000000000043087500000000000000000000000000453081280000000000000000000043075000000000000000000000000000507759890000000000000000000043062500000000000000000000000000475226980000000000000000000043050000000000000000000000000000436561460000000000000000000043037500000000000000000000000000476481790000000000000000000043025000000000000000000000000000464322610000000000000000000043012500000000000000000000000000437960770000000000000000000043000000000000000000000000000000469265030000000000000000000042987500000000000000000000000000483258830000000000000000000042975000000000000000000000000000488062210000000000000000000042962500000000000000000000000000491707270000000000000000000042950000000000000000000000000000479187800000000000000000000042937500000000000000000000000000497546030000000000000000000042925000000000000000000000000000511217220000000000000000000042912500000000000000000000000000523326170000000000000000000042900000000000000000000000000000549227900000000000000000000042887500000000000000000000000000569244260000000000000000000042875000000000000000000000000000484964830000000000000000000042862500000000000000000000000000456620060000000000000000000042850000000000000000000000000000495222180000000000000000000042837500000000000000000000000000461359910000000000000000000042825000000000000000000000000000469711510000000000000000000042812500000000000000000000000000464649320000000000000000000042800000000000000000000000000000484042310000000000000000000042787500000000000000000000000000503296690000000000000000000042775000000000000000000000000000504850680000000000000000000042762500000000000000000000000000520869350000000000000000000042750000000000000000000000000000530556440000000000000000000042737500000000000000000000000000537705900000000000000000000042725000000000000000000000000000532456350000000000000000000042712500000000000000000000000000514190240000000000000000000042700000000000000000000000000000487971270000000000000000000042687500000000000000000000000000473280780000000000000000000042675000000000000000000000000000474282520000000000000000000042662500000000000000000000000000480880590000000000000000000042650000000000000000000000000000466659650000000000000000000042637500000000000000000000000000465365070000000000000000000042625000000000000000000000000000492755670000000000000000000042612500000000000000000000000000499562140000000000000000000042600000000000000000000,
    529055090000000000000000000044187500000000000000000000000000497263710000000000000000000044175000000000000000000000000000488268300000000000000000000044162500000000000000000000000000532131030000000000000000000044150000000000000000000000000000518247670000000000000000000044137500000000000000000000000000497061490000000000000000000044125000000000000000000000000000485661260000000000000000000044112500000000000000000000000000500117310000000000000000000044100000000000000000000000000000471681430000000000000000000044087500000000000000000000000000495637910000000000000000000044075000000000000000000000000000508300120000000000000000000044062500000000000000000000000000508955150000000000000000000044050000000000000000000000000000466776360000000000000000000044037500000000000000000000000000423192810000000000000000000044025000000000000000000000000000476457750000000000000000000044012500000000000000000000000000519201530000000000000000000044000000000000000000000000000000480065080000000000000000000043987500000000000000000000000000446782760000000000000000000043975000000000000000000000000000473795360000000000000000000043962500000000000000000000000000474564910000000000000000000043950000000000000000000000000000492579720000000000000000000043937500000000000000000000000000534637350000000000000000000043925000000000000000000000000000521612680000000000000000000043912500000000000000000000000000537005650000000000000000000043900000000000000000000000000000488354880000000000000000000043887500000000000000000000000000467296020000000000000000000043875000000000000000000000000000485194890000000000000000000043862500000000000000000000000000477814490000000000000000000043850000000000000000000000000000470610360000000000000000000043837500000000000000000000000000489874990000000000000000000043825000000000000000000000000000485645390000000000000000000043812500000000000000000000000000498917010000000000000000000043800000000000000000000000000000492874330000000000000000000043787500000000000000000000000000488290070000000000000000000043775000000000000000000000000000491972980000000000000000000043762500000000000000000000000000505755690000000000000000000043750000000000000000000000000000475835530000000000000000000043737500000000000000000000000000499247900000000000000000000043725000000000000000000000000000526352260000000000000000000043712500000000000000000000000000499207260000000000000000000043700000000000000000000000000000484706270000000000000000000043687500000000000000000000000000500525360000000000000000000043675000000000000000000000000000504701290000000000000000000043662500000000000000000000000000503497250000000000000000000043650000000000000000000000000000512925720000000000000000000043637500000000000000000000000000467482080000000000000000000043625000000000000000000000000000468083050000000000000000000043612500000000000000000000000000508579410000000000000000000043600000000000000000000000000000536220950000000000000000000043587500000000000000000000000000475938240000000000000000000043575000000000000000000000000000514062100000000000000000000043562500000000000000000000000000510538340000000000000000000043550000000000000000000000000000503504030000000000000000000043537500000000000000000000000000476375910000000000000000000043525000000000000000000000000000507643400000000000000000000043512500000000000000000000000000611828350000000000000000000043500000000000000000000000000000621721960000000000000000000043487500000000000000000000000000644797800000000000000000000043475000000000000000000000000000586493630000000000000000000043462500000000000000000000000000540810760000000000000000000043450000000000000000000000000000517343770000000000000000000043437500000000000000000000000000444760900000000000000000000043425000000000000000000000000000475049910000000000000000000043412500000000000000000000000000518073830000000000000000000043400000000000000000000,
    477727450000000000000000000044987500000000000000000000000000524586810000000000000000000044975000000000000000000000000000491956060000000000000000000044962500000000000000000000000000502572050000000000000000000044950000000000000000000000000000536305590000000000000000000044937500000000000000000000000000510859340000000000000000000044925000000000000000000000000000483589180000000000000000000044912500000000000000000000000000514727240000000000000000000044900000000000000000000000000000501103000000000000000000000044887500000000000000000000000000465081040000000000000000000044875000000000000000000000000000477603070000000000000000000044862500000000000000000000000000499661580000000000000000000044850000000000000000000000000000524234090000000000000000000044837500000000000000000000000000544645260000000000000000000044825000000000000000000000000000554011750000000000000000000044812500000000000000000000000000521093050000000000000000000044800000000000000000000000000000474912560000000000000000000044787500000000000000000000000000477160460000000000000000000044775000000000000000000000000000485476670000000000000000000044762500000000000000000000000000479413060000000000000000000044750000000000000000000000000000507768800000000000000000000044737500000000000000000000000000519383940000000000000000000044725000000000000000000000000000478902410000000000000000000044712500000000000000000000000000467319020000000000000000000044700000000000000000000000000000491869860000000000000000000044687500000000000000000000000000521148370000000000000000000044675000000000000000000000000000511956840000000000000000000044662500000000000000000000000000497193460000000000000000000044650000000000000000000000000000454345310000000000000000000044637500000000000000000000000000486538470000000000000000000044625000000000000000000000000000517874320000000000000000000044612500000000000000000000000000520200150000000000000000000044600000000000000000000000000000502628790000000000000000000044587500000000000000000000000000522709550000000000000000000044575000000000000000000000000000528393960000000000000000000044562500000000000000000000000000472577510000000000000000000044550000000000000000000000000000524580500000000000000000000044537500000000000000000000000000549132430000000000000000000044525000000000000000000000000000528657210000000000000000000044512500000000000000000000000000543901640000000000000000000044500000000000000000000000000000531242110000000000000000000044487500000000000000000000000000519531510000000000000000000044475000000000000000000000000000531672790000000000000000000044462500000000000000000000000000551415610000000000000000000044450000000000000000000000000000535476830000000000000000000044437500000000000000000000000000495748490000000000000000000044425000000000000000000000000000496176430000000000000000000044412500000000000000000000000000497458060000000000000000000044400000000000000000000000000000529469820000000000000000000044387500000000000000000000000000512246120000000000000000000044375000000000000000000000000000484293650000000000000000000044362500000000000000000000000000494270220000000000000000000044350000000000000000000000000000524487800000000000000000000044337500000000000000000000000000516561460000000000000000000044325000000000000000000000000000510799200000000000000000000044312500000000000000000000000000507691240000000000000000000044300000000000000000000000000000488990120000000000000000000044287500000000000000000000000000479517450000000000000000000044275000000000000000000000000000533883720000000000000000000044262500000000000000000000000000507549010000000000000000000044250000000000000000000000000000492613710000000000000000000044237500000000000000000000000000492998050000000000000000000044225000000000000000000000000000520278760000000000000000000044212500000000000000000000000000507081850000000000000000000044200000000000000000000,
    501707250000000000000000000045787500000000000000000000000000493250160000000000000000000045775000000000000000000000000000512158550000000000000000000045762500000000000000000000000000536562040000000000000000000045750000000000000000000000000000543454220000000000000000000045737500000000000000000000000000528026670000000000000000000045725000000000000000000000000000524696920000000000000000000045712500000000000000000000000000508419440000000000000000000045700000000000000000000000000000506775990000000000000000000045687500000000000000000000000000510415030000000000000000000045675000000000000000000000000000480394010000000000000000000045662500000000000000000000000000520227410000000000000000000045650000000000000000000000000000548806120000000000000000000045637500000000000000000000000000485020120000000000000000000045625000000000000000000000000000474725500000000000000000000045612500000000000000000000000000475057240000000000000000000045600000000000000000000000000000481765310000000000000000000045587500000000000000000000000000540732230000000000000000000045575000000000000000000000000000525180470000000000000000000045562500000000000000000000000000516799270000000000000000000045550000000000000000000000000000523651320000000000000000000045537500000000000000000000000000499808470000000000000000000045525000000000000000000000000000517912050000000000000000000045512500000000000000000000000000537740490000000000000000000045500000000000000000000000000000510047380000000000000000000045487500000000000000000000000000508266150000000000000000000045475000000000000000000000000000509357370000000000000000000045462500000000000000000000000000526623570000000000000000000045450000000000000000000000000000533093370000000000000000000045437500000000000000000000000000494696820000000000000000000045425000000000000000000000000000483309570000000000000000000045412500000000000000000000000000512067110000000000000000000045400000000000000000000000000000490649320000000000000000000045387500000000000000000000000000501618420000000000000000000045375000000000000000000000000000510012180000000000000000000045362500000000000000000000000000505519810000000000000000000045350000000000000000000000000000491323210000000000000000000045337500000000000000000000000000511721520000000000000000000045325000000000000000000000000000501460920000000000000000000045312500000000000000000000000000533975500000000000000000000045300000000000000000000000000000547390080000000000000000000045287500000000000000000000000000530960960000000000000000000045275000000000000000000000000000504830800000000000000000000045262500000000000000000000000000503211610000000000000000000045250000000000000000000000000000509605640000000000000000000045237500000000000000000000000000514940000000000000000000000045225000000000000000000000000000519605610000000000000000000045212500000000000000000000000000512013640000000000000000000045200000000000000000000000000000512327560000000000000000000045187500000000000000000000000000516075910000000000000000000045175000000000000000000000000000531913280000000000000000000045162500000000000000000000000000527700270000000000000000000045150000000000000000000000000000496940230000000000000000000045137500000000000000000000000000505811630000000000000000000045125000000000000000000000000000517908200000000000000000000045112500000000000000000000000000540438090000000000000000000045100000000000000000000000000000505968820000000000000000000045087500000000000000000000000000484511090000000000000000000045075000000000000000000000000000492215920000000000000000000045062500000000000000000000000000485082460000000000000000000045050000000000000000000000000000473793250000000000000000000045037500000000000000000000000000485360430000000000000000000045025000000000000000000000000000502565030000000000000000000045012500000000000000000000000000461314280000000000000000000045000000000000000000000,
    517403680000000000000000000046587500000000000000000000000000516634430000000000000000000046575000000000000000000000000000511518180000000000000000000046562500000000000000000000000000505185220000000000000000000046550000000000000000000000000000526899280000000000000000000046537500000000000000000000000000525390970000000000000000000046525000000000000000000000000000541557630000000000000000000046512500000000000000000000000000510323510000000000000000000046500000000000000000000000000000497555490000000000000000000046487500000000000000000000000000482485980000000000000000000046475000000000000000000000000000474858410000000000000000000046462500000000000000000000000000539651810000000000000000000046450000000000000000000000000000542127770000000000000000000046437500000000000000000000000000464041020000000000000000000046425000000000000000000000000000463743510000000000000000000046412500000000000000000000000000483646360000000000000000000046400000000000000000000000000000510333460000000000000000000046387500000000000000000000000000527109590000000000000000000046375000000000000000000000000000517941850000000000000000000046362500000000000000000000000000538677210000000000000000000046350000000000000000000000000000520731770000000000000000000046337500000000000000000000000000566337500000000000000000000046325000000000000000000000000000524870180000000000000000000046312500000000000000000000000000491436980000000000000000000046300000000000000000000000000000500092790000000000000000000046287500000000000000000000000000498365390000000000000000000046275000000000000000000000000000506590260000000000000000000046262500000000000000000000000000538150290000000000000000000046250000000000000000000000000000517797260000000000000000000046237500000000000000000000000000520034790000000000000000000046225000000000000000000000000000518083830000000000000000000046212500000000000000000000000000498005700000000000000000000046200000000000000000000000000000522633590000000000000000000046187500000000000000000000000000539924620000000000000000000046175000000000000000000000000000519400000000000000000000000046162500000000000000000000000000543824100000000000000000000046150000000000000000000000000000561837990000000000000000000046137500000000000000000000000000516315890000000000000000000046125000000000000000000000000000487340120000000000000000000046112500000000000000000000000000516771640000000000000000000046100000000000000000000000000000513815580000000000000000000046087500000000000000000000000000479396000000000000000000000046075000000000000000000000000000508934330000000000000000000046062500000000000000000000000000519484580000000000000000000046050000000000000000000000000000510823220000000000000000000046037500000000000000000000000000525302040000000000000000000046025000000000000000000000000000531929220000000000000000000046012500000000000000000000000000523052800000000000000000000046000000000000000000000000000000529775520000000000000000000045987500000000000000000000000000539143010000000000000000000045975000000000000000000000000000481926740000000000000000000045962500000000000000000000000000480608260000000000000000000045950000000000000000000000000000503979260000000000000000000045937500000000000000000000000000490884350000000000000000000045925000000000000000000000000000488036360000000000000000000045912500000000000000000000000000508207320000000000000000000045900000000000000000000000000000516207910000000000000000000045887500000000000000000000000000479246310000000000000000000045875000000000000000000000000000510892720000000000000000000045862500000000000000000000000000505484900000000000000000000045850000000000000000000000000000519780930000000000000000000045837500000000000000000000000000520723000000000000000000000045825000000000000000000000000000519688160000000000000000000045812500000000000000000000000000484051470000000000000000000045800000000000000000000,
    454948670000000000000000000047387500000000000000000000000000469349790000000000000000000047375000000000000000000000000000500245370000000000000000000047362500000000000000000000000000548385680000000000000000000047350000000000000000000000000000490726460000000000000000000047337500000000000000000000000000521126130000000000000000000047325000000000000000000000000000526548490000000000000000000047312500000000000000000000000000530523720000000000000000000047300000000000000000000000000000527015110000000000000000000047287500000000000000000000000000535948490000000000000000000047275000000000000000000000000000506434890000000000000000000047262500000000000000000000000000500505660000000000000000000047250000000000000000000000000000498706480000000000000000000047237500000000000000000000000000510710710000000000000000000047225000000000000000000000000000528274160000000000000000000047212500000000000000000000000000502143950000000000000000000047200000000000000000000000000000531138590000000000000000000047187500000000000000000000000000523296230000000000000000000047175000000000000000000000000000486804880000000000000000000047162500000000000000000000000000461502560000000000000000000047150000000000000000000000000000459200170000000000000000000047137500000000000000000000000000488113020000000000000000000047125000000000000000000000000000485000740000000000000000000047112500000000000000000000000000523398880000000000000000000047100000000000000000000000000000515439040000000000000000000047087500000000000000000000000000534760870000000000000000000047075000000000000000000000000000539447700000000000000000000047062500000000000000000000000000510453750000000000000000000047050000000000000000000000000000512453140000000000000000000047037500000000000000000000000000524060200000000000000000000047025000000000000000000000000000533479510000000000000000000047012500000000000000000000000000498520740000000000000000000047000000000000000000000000000000484233690000000000000000000046987500000000000000000000000000509769250000000000000000000046975000000000000000000000000000493791470000000000000000000046962500000000000000000000000000494597240000000000000000000046950000000000000000000000000000514428570000000000000000000046937500000000000000000000000000515915720000000000000000000046925000000000000000000000000000503663410000000000000000000046912500000000000000000000000000492798770000000000000000000046900000000000000000000000000000496407080000000000000000000046887500000000000000000000000000501176590000000000000000000046875000000000000000000000000000544028260000000000000000000046862500000000000000000000000000515266660000000000000000000046850000000000000000000000000000523843170000000000000000000046837500000000000000000000000000564018070000000000000000000046825000000000000000000000000000522603390000000000000000000046812500000000000000000000000000483825940000000000000000000046800000000000000000000000000000488645600000000000000000000046787500000000000000000000000000525179410000000000000000000046775000000000000000000000000000533205310000000000000000000046762500000000000000000000000000511596140000000000000000000046750000000000000000000000000000522219420000000000000000000046737500000000000000000000000000519308800000000000000000000046725000000000000000000000000000489306590000000000000000000046712500000000000000000000000000514144550000000000000000000046700000000000000000000000000000527677080000000000000000000046687500000000000000000000000000521442030000000000000000000046675000000000000000000000000000536821200000000000000000000046662500000000000000000000000000553815870000000000000000000046650000000000000000000000000000527616240000000000000000000046637500000000000000000000000000480826110000000000000000000046625000000000000000000000000000515582320000000000000000000046612500000000000000000000000000506195700000000000000000000046600000000000000000000,
    503053040000000000000000000048187500000000000000000000000000516200940000000000000000000048175000000000000000000000000000557176170000000000000000000048162500000000000000000000000000557822330000000000000000000048150000000000000000000000000000533340400000000000000000000048137500000000000000000000000000525572510000000000000000000048125000000000000000000000000000469274650000000000000000000048112500000000000000000000000000494886440000000000000000000048100000000000000000000000000000516281900000000000000000000048087500000000000000000000000000520935650000000000000000000048075000000000000000000000000000499850650000000000000000000048062500000000000000000000000000532688000000000000000000000048050000000000000000000000000000525176230000000000000000000048037500000000000000000000000000505264870000000000000000000048025000000000000000000000000000513194700000000000000000000048012500000000000000000000000000519182820000000000000000000048000000000000000000000000000000499022990000000000000000000047987500000000000000000000000000533677030000000000000000000047975000000000000000000000000000532713180000000000000000000047962500000000000000000000000000494573710000000000000000000047950000000000000000000000000000492313870000000000000000000047937500000000000000000000000000497217490000000000000000000047925000000000000000000000000000483539900000000000000000000047912500000000000000000000000000462975980000000000000000000047900000000000000000000000000000457750070000000000000000000047887500000000000000000000000000472264990000000000000000000047875000000000000000000000000000497171440000000000000000000047862500000000000000000000000000554581960000000000000000000047850000000000000000000000000000536419850000000000000000000047837500000000000000000000000000517554880000000000000000000047825000000000000000000000000000494803340000000000000000000047812500000000000000000000000000534841100000000000000000000047800000000000000000000000000000562912700000000000000000000047787500000000000000000000000000574880410000000000000000000047775000000000000000000000000000545046110000000000000000000047762500000000000000000000000000507439480000000000000000000047750000000000000000000000000000499274330000000000000000000047737500000000000000000000000000535379280000000000000000000047725000000000000000000000000000554389540000000000000000000047712500000000000000000000000000511283890000000000000000000047700000000000000000000000000000492340570000000000000000000047687500000000000000000000000000484081770000000000000000000047675000000000000000000000000000462682480000000000000000000047662500000000000000000000000000491098410000000000000000000047650000000000000000000000000000515233450000000000000000000047637500000000000000000000000000495005370000000000000000000047625000000000000000000000000000474320390000000000000000000047612500000000000000000000000000498552490000000000000000000047600000000000000000000000000000509071550000000000000000000047587500000000000000000000000000470097770000000000000000000047575000000000000000000000000000486265380000000000000000000047562500000000000000000000000000506393560000000000000000000047550000000000000000000000000000524235380000000000000000000047537500000000000000000000000000495059880000000000000000000047525000000000000000000000000000495873220000000000000000000047512500000000000000000000000000523267820000000000000000000047500000000000000000000000000000511602950000000000000000000047487500000000000000000000000000570004950000000000000000000047475000000000000000000000000000552489330000000000000000000047462500000000000000000000000000519904840000000000000000000047450000000000000000000000000000506267610000000000000000000047437500000000000000000000000000492994270000000000000000000047425000000000000000000000000000507921700000000000000000000047412500000000000000000000000000484999110000000000000000000047400000000000000000000,
    500593560000000000000000000048987500000000000000000000000000495353310000000000000000000048975000000000000000000000000000531644320000000000000000000048962500000000000000000000000000541185360000000000000000000048950000000000000000000000000000490007100000000000000000000048937500000000000000000000000000492863720000000000000000000048925000000000000000000000000000473645110000000000000000000048912500000000000000000000000000487833690000000000000000000048900000000000000000000000000000559630180000000000000000000048887500000000000000000000000000526421200000000000000000000048875000000000000000000000000000519255640000000000000000000048862500000000000000000000000000528771090000000000000000000048850000000000000000000000000000520105970000000000000000000048837500000000000000000000000000539398170000000000000000000048825000000000000000000000000000562551680000000000000000000048812500000000000000000000000000517821980000000000000000000048800000000000000000000000000000502561900000000000000000000048787500000000000000000000000000541831080000000000000000000048775000000000000000000000000000540387930000000000000000000048762500000000000000000000000000525274100000000000000000000048750000000000000000000000000000505345480000000000000000000048737500000000000000000000000000497624530000000000000000000048725000000000000000000000000000513335670000000000000000000048712500000000000000000000000000555752410000000000000000000048700000000000000000000000000000536840550000000000000000000048687500000000000000000000000000539055540000000000000000000048675000000000000000000000000000503972970000000000000000000048662500000000000000000000000000511605520000000000000000000048650000000000000000000000000000566624570000000000000000000048637500000000000000000000000000558021590000000000000000000048625000000000000000000000000000527361710000000000000000000048612500000000000000000000000000494850880000000000000000000048600000000000000000000000000000550219400000000000000000000048587500000000000000000000000000540470860000000000000000000048575000000000000000000000000000514534960000000000000000000048562500000000000000000000000000511185820000000000000000000048550000000000000000000000000000523566510000000000000000000048537500000000000000000000000000528763600000000000000000000048525000000000000000000000000000512498350000000000000000000048512500000000000000000000000000518245850000000000000000000048500000000000000000000000000000528851020000000000000000000048487500000000000000000000000000555580380000000000000000000048475000000000000000000000000000528790760000000000000000000048462500000000000000000000000000521706300000000000000000000048450000000000000000000000000000557747250000000000000000000048437500000000000000000000000000559835390000000000000000000048425000000000000000000000000000508619110000000000000000000048412500000000000000000000000000521374750000000000000000000048400000000000000000000000000000521820810000000000000000000048387500000000000000000000000000525355640000000000000000000048375000000000000000000000000000537998010000000000000000000048362500000000000000000000000000553034780000000000000000000048350000000000000000000000000000533560210000000000000000000048337500000000000000000000000000503297370000000000000000000048325000000000000000000000000000520096760000000000000000000048312500000000000000000000000000521470530000000000000000000048300000000000000000000000000000503868180000000000000000000048287500000000000000000000000000520554610000000000000000000048275000000000000000000000000000514315120000000000000000000048262500000000000000000000000000515913670000000000000000000048250000000000000000000000000000552002270000000000000000000048237500000000000000000000000000551631830000000000000000000048225000000000000000000000000000555078660000000000000000000048212500000000000000000000000000529332220000000000000000000048200000000000000000000,
    558139320000000000000000000049787500000000000000000000000000588728290000000000000000000049775000000000000000000000000000559874350000000000000000000049762500000000000000000000000000540094020000000000000000000049750000000000000000000000000000538767480000000000000000000049737500000000000000000000000000532325380000000000000000000049725000000000000000000000000000526437090000000000000000000049712500000000000000000000000000522623150000000000000000000049700000000000000000000000000000548855360000000000000000000049687500000000000000000000000000554202900000000000000000000049675000000000000000000000000000536865180000000000000000000049662500000000000000000000000000520402710000000000000000000049650000000000000000000000000000490411230000000000000000000049637500000000000000000000000000519594770000000000000000000049625000000000000000000000000000499475790000000000000000000049612500000000000000000000000000486034040000000000000000000049600000000000000000000000000000531356580000000000000000000049587500000000000000000000000000518263150000000000000000000049575000000000000000000000000000519651950000000000000000000049562500000000000000000000000000552921740000000000000000000049550000000000000000000000000000527040950000000000000000000049537500000000000000000000000000497911290000000000000000000049525000000000000000000000000000515157790000000000000000000049512500000000000000000000000000554655930000000000000000000049500000000000000000000000000000509120300000000000000000000049487500000000000000000000000000532460400000000000000000000049475000000000000000000000000000538230380000000000000000000049462500000000000000000000000000490770890000000000000000000049450000000000000000000000000000522794520000000000000000000049437500000000000000000000000000521046690000000000000000000049425000000000000000000000000000522612540000000000000000000049412500000000000000000000000000520771520000000000000000000049400000000000000000000000000000531006360000000000000000000049387500000000000000000000000000502981310000000000000000000049375000000000000000000000000000510260500000000000000000000049362500000000000000000000000000563628380000000000000000000049350000000000000000000000000000557775190000000000000000000049337500000000000000000000000000526142640000000000000000000049325000000000000000000000000000498993970000000000000000000049312500000000000000000000000000534554530000000000000000000049300000000000000000000000000000545260260000000000000000000049287500000000000000000000000000519763020000000000000000000049275000000000000000000000000000505468140000000000000000000049262500000000000000000000000000501931890000000000000000000049250000000000000000000000000000535055710000000000000000000049237500000000000000000000000000524074800000000000000000000049225000000000000000000000000000511974980000000000000000000049212500000000000000000000000000545442040000000000000000000049200000000000000000000000000000561770630000000000000000000049187500000000000000000000000000507984470000000000000000000049175000000000000000000000000000534576650000000000000000000049162500000000000000000000000000530747430000000000000000000049150000000000000000000000000000559421330000000000000000000049137500000000000000000000000000571764830000000000000000000049125000000000000000000000000000518243550000000000000000000049112500000000000000000000000000518425100000000000000000000049100000000000000000000000000000540027890000000000000000000049087500000000000000000000000000557392820000000000000000000049075000000000000000000000000000538088380000000000000000000049062500000000000000000000000000523353450000000000000000000049050000000000000000000000000000527598330000000000000000000049037500000000000000000000000000548373710000000000000000000049025000000000000000000000000000562377710000000000000000000049012500000000000000000000000000522293870000000000000000000049000000000000000000000,
    828936030000000000000000000050587500000000000000000000000002991816100000000000000000000050575000000000000000000000000003052333400000000000000000000050562500000000000000000000000000856726450000000000000000000050550000000000000000000000000000570504090000000000000000000050537500000000000000000000000000523930560000000000000000000050525000000000000000000000000000547413790000000000000000000050512500000000000000000000000000601718490000000000000000000050500000000000000000000000000000560674490000000000000000000050487500000000000000000000000000550778570000000000000000000050475000000000000000000000000000589508280000000000000000000050462500000000000000000000000002409675300000000000000000000050450000000000000000000000000003274730500000000000000000000050437500000000000000000000000001448667000000000000000000000050425000000000000000000000000000597853020000000000000000000050412500000000000000000000000000540150100000000000000000000050400000000000000000000000000000494743340000000000000000000050387500000000000000000000000000529940100000000000000000000050375000000000000000000000000000536999350000000000000000000050362500000000000000000000000000534160050000000000000000000050350000000000000000000000000000557236510000000000000000000050337500000000000000000000000000567372020000000000000000000050325000000000000000000000000000548156630000000000000000000050312500000000000000000000000000538972160000000000000000000050300000000000000000000000000000526325440000000000000000000050287500000000000000000000000000521764300000000000000000000050275000000000000000000000000000543516180000000000000000000050262500000000000000000000000000544188710000000000000000000050250000000000000000000000000000575909340000000000000000000050237500000000000000000000000000531655080000000000000000000050225000000000000000000000000000519329990000000000000000000050212500000000000000000000000000547202140000000000000000000050200000000000000000000000000000555945730000000000000000000050187500000000000000000000000000565348580000000000000000000050175000000000000000000000000000548631300000000000000000000050162500000000000000000000000000583973750000000000000000000050150000000000000000000000000000550973700000000000000000000050137500000000000000000000000000521388120000000000000000000050125000000000000000000000000000543307310000000000000000000050112500000000000000000000000000572750810000000000000000000050100000000000000000000000000000569383450000000000000000000050087500000000000000000000000000541654330000000000000000000050075000000000000000000000000000545524330000000000000000000050062500000000000000000000000000541927940000000000000000000050050000000000000000000000000000559501880000000000000000000050037500000000000000000000000000557774250000000000000000000050025000000000000000000000000000547962380000000000000000000050012500000000000000000000000000541832120000000000000000000050000000000000000000000000000000526597490000000000000000000049987500000000000000000000000000520519430000000000000000000049975000000000000000000000000000516480000000000000000000000049962500000000000000000000000000512455580000000000000000000049950000000000000000000000000000493187160000000000000000000049937500000000000000000000000000526141590000000000000000000049925000000000000000000000000000522185160000000000000000000049912500000000000000000000000000523769740000000000000000000049900000000000000000000000000000483596150000000000000000000049887500000000000000000000000000512781910000000000000000000049875000000000000000000000000000565033870000000000000000000049862500000000000000000000000000527499860000000000000000000049850000000000000000000000000000506017580000000000000000000049837500000000000000000000000000509848320000000000000000000049825000000000000000000000000000504794930000000000000000000049812500000000000000000000000000541260980000000000000000000049800000000000000000000,
    12681125000000000000000000000051387500000000000000000000000012178740000000000000000000000051375000000000000000000000000011856914000000000000000000000051362500000000000000000000000009298051300000000000000000000051350000000000000000000000000003391310900000000000000000000051337500000000000000000000000004648444800000000000000000000051325000000000000000000000000008188589800000000000000000000051312500000000000000000000000020513142000000000000000000000051300000000000000000000000000033796241000000000000000000000051287500000000000000000000000034261791000000000000000000000051275000000000000000000000000025826125000000000000000000000051262500000000000000000000000053310734000000000000000000000051250000000000000000000000000054767412000000000000000000000051237500000000000000000000000035253557000000000000000000000051225000000000000000000000000046211218000000000000000000000051212500000000000000000000000059828084000000000000000000000051200000000000000000000000000177550050000000000000000000000051187500000000000000000000002227577300000000000000000000000051175000000000000000000000003277034200000000000000000000000051162500000000000000000000001165431300000000000000000000000051150000000000000000000000000086733127000000000000000000000051137500000000000000000000000048133912000000000000000000000051125000000000000000000000000034729467000000000000000000000051112500000000000000000000000041175343000000000000000000000051100000000000000000000000000061160438000000000000000000000051087500000000000000000000000040056225000000000000000000000051075000000000000000000000000027022135000000000000000000000051062500000000000000000000000036173023000000000000000000000051050000000000000000000000000029196616000000000000000000000051037500000000000000000000000015714768000000000000000000000051025000000000000000000000000007809870400000000000000000000051012500000000000000000000000004668152200000000000000000000051000000000000000000000000000003510196300000000000000000000050987500000000000000000000000004140854400000000000000000000050975000000000000000000000000008259945900000000000000000000050962500000000000000000000000015211826000000000000000000000050950000000000000000000000000012686204000000000000000000000050937500000000000000000000000035919031000000000000000000000050925000000000000000000000000052481627000000000000000000000050912500000000000000000000000021331999000000000000000000000050900000000000000000000000000010950432000000000000000000000050887500000000000000000000000012214219000000000000000000000050875000000000000000000000000010039129000000000000000000000050862500000000000000000000000007052188200000000000000000000050850000000000000000000000000004711807300000000000000000000050837500000000000000000000000003624445700000000000000000000050825000000000000000000000000002941648600000000000000000000050812500000000000000000000000001952789600000000000000000000050800000000000000000000000000001394809600000000000000000000050787500000000000000000000000001148020200000000000000000000050775000000000000000000000000000967257950000000000000000000050762500000000000000000000000000819688730000000000000000000050750000000000000000000000000000718193810000000000000000000050737500000000000000000000000000685324220000000000000000000050725000000000000000000000000000583133030000000000000000000050712500000000000000000000000000562107640000000000000000000050700000000000000000000000000000712745290000000000000000000050687500000000000000000000000002005846900000000000000000000050675000000000000000000000000001987524700000000000000000000050662500000000000000000000000000683249020000000000000000000050650000000000000000000000000000553282730000000000000000000050637500000000000000000000000000535674990000000000000000000050625000000000000000000000000000521278040000000000000000000050612500000000000000000000000000556021420000000000000000000050600000000000000000000,
    514335820000000000000000000052187500000000000000000000000000512921670000000000000000000052175000000000000000000000000000536394010000000000000000000052162500000000000000000000000000509161160000000000000000000052150000000000000000000000000000488484750000000000000000000052137500000000000000000000000000472282250000000000000000000052125000000000000000000000000000493472450000000000000000000052112500000000000000000000000000540812460000000000000000000052100000000000000000000000000000544299440000000000000000000052087500000000000000000000000000532927140000000000000000000052075000000000000000000000000000518303580000000000000000000052062500000000000000000000000000535357200000000000000000000052050000000000000000000000000000545327020000000000000000000052037500000000000000000000000000529795030000000000000000000052025000000000000000000000000000504381660000000000000000000052012500000000000000000000000000494020750000000000000000000052000000000000000000000000000000560492570000000000000000000051987500000000000000000000000000582980070000000000000000000051975000000000000000000000000000558182170000000000000000000051962500000000000000000000000000564583090000000000000000000051950000000000000000000000000000542366400000000000000000000051937500000000000000000000000000542678540000000000000000000051925000000000000000000000000000503488970000000000000000000051912500000000000000000000000000511120920000000000000000000051900000000000000000000000000000513951380000000000000000000051887500000000000000000000000000492100710000000000000000000051875000000000000000000000000000492042370000000000000000000051862500000000000000000000000000538120140000000000000000000051850000000000000000000000000000548402370000000000000000000051837500000000000000000000000000541927030000000000000000000051825000000000000000000000000000521586000000000000000000000051812500000000000000000000000000525873630000000000000000000051800000000000000000000000000000551872930000000000000000000051787500000000000000000000000000586748530000000000000000000051775000000000000000000000000000572778500000000000000000000051762500000000000000000000000000551501460000000000000000000051750000000000000000000000000000553206350000000000000000000051737500000000000000000000000000568333780000000000000000000051725000000000000000000000000000565610300000000000000000000051712500000000000000000000000000531160640000000000000000000051700000000000000000000000000000554477500000000000000000000051687500000000000000000000000000548702330000000000000000000051675000000000000000000000000000558135680000000000000000000051662500000000000000000000000000576528290000000000000000000051650000000000000000000000000000599801240000000000000000000051637500000000000000000000000000619229110000000000000000000051625000000000000000000000000001830810100000000000000000000051612500000000000000000000000003595470200000000000000000000051600000000000000000000000000003526209900000000000000000000051587500000000000000000000000001522430800000000000000000000051575000000000000000000000000002224908400000000000000000000051562500000000000000000000000005433338300000000000000000000051550000000000000000000000000003809087900000000000000000000051537500000000000000000000000001848561600000000000000000000051525000000000000000000000000002496228900000000000000000000051512500000000000000000000000003658260000000000000000000000051500000000000000000000000000005206775700000000000000000000051487500000000000000000000000007528218100000000000000000000051475000000000000000000000000010690710000000000000000000000051462500000000000000000000000011647359000000000000000000000051450000000000000000000000000009958772100000000000000000000051437500000000000000000000000008327300000000000000000000000051425000000000000000000000000008249267000000000000000000000051412500000000000000000000000009679839300000000000000000000051400000000000000000000,
    515300860000000000000000000052987500000000000000000000000000536349480000000000000000000052975000000000000000000000000000538414940000000000000000000052962500000000000000000000000000511893030000000000000000000052950000000000000000000000000000506355190000000000000000000052937500000000000000000000000000522609270000000000000000000052925000000000000000000000000000529059240000000000000000000052912500000000000000000000000000525046700000000000000000000052900000000000000000000000000000568194990000000000000000000052887500000000000000000000000000596088800000000000000000000052875000000000000000000000000000515435140000000000000000000052862500000000000000000000000000500919890000000000000000000052850000000000000000000000000000527379800000000000000000000052837500000000000000000000000000544701990000000000000000000052825000000000000000000000000000544665040000000000000000000052812500000000000000000000000000566218030000000000000000000052800000000000000000000000000000539968090000000000000000000052787500000000000000000000000000557546870000000000000000000052775000000000000000000000000000600627630000000000000000000052762500000000000000000000000000571716690000000000000000000052750000000000000000000000000000519710130000000000000000000052737500000000000000000000000000501630320000000000000000000052725000000000000000000000000000524831190000000000000000000052712500000000000000000000000000552228360000000000000000000052700000000000000000000000000000585177310000000000000000000052687500000000000000000000000000598359610000000000000000000052675000000000000000000000000000540999750000000000000000000052662500000000000000000000000000535629970000000000000000000052650000000000000000000000000000542321000000000000000000000052637500000000000000000000000000527432330000000000000000000052625000000000000000000000000000525460890000000000000000000052612500000000000000000000000000568973010000000000000000000052600000000000000000000000000000566718870000000000000000000052587500000000000000000000000000552462940000000000000000000052575000000000000000000000000000538263270000000000000000000052562500000000000000000000000000565761400000000000000000000052550000000000000000000000000000586578910000000000000000000052537500000000000000000000000000579177390000000000000000000052525000000000000000000000000000561636290000000000000000000052512500000000000000000000000000538297000000000000000000000052500000000000000000000000000000559832920000000000000000000052487500000000000000000000000000549143570000000000000000000052475000000000000000000000000000527471730000000000000000000052462500000000000000000000000000518706390000000000000000000052450000000000000000000000000000489026390000000000000000000052437500000000000000000000000000548066070000000000000000000052425000000000000000000000000000573222230000000000000000000052412500000000000000000000000000547828760000000000000000000052400000000000000000000000000000554848450000000000000000000052387500000000000000000000000000553162950000000000000000000052375000000000000000000000000000549789760000000000000000000052362500000000000000000000000000507333050000000000000000000052350000000000000000000000000000511402220000000000000000000052337500000000000000000000000000512661520000000000000000000052325000000000000000000000000000554025210000000000000000000052312500000000000000000000000000549120750000000000000000000052300000000000000000000000000000570864810000000000000000000052287500000000000000000000000000576785090000000000000000000052275000000000000000000000000000506024930000000000000000000052262500000000000000000000000000528138250000000000000000000052250000000000000000000000000000540624570000000000000000000052237500000000000000000000000000558252330000000000000000000052225000000000000000000000000000498607350000000000000000000052212500000000000000000000000000490733540000000000000000000052200000000000000000000,
    527509730000000000000000000053787500000000000000000000000000517127470000000000000000000053775000000000000000000000000000552081710000000000000000000053762500000000000000000000000000542862640000000000000000000053750000000000000000000000000000531730350000000000000000000053737500000000000000000000000000544057740000000000000000000053725000000000000000000000000000541306270000000000000000000053712500000000000000000000000000496297960000000000000000000053700000000000000000000000000000524553590000000000000000000053687500000000000000000000000000548438820000000000000000000053675000000000000000000000000000536301750000000000000000000053662500000000000000000000000000557257020000000000000000000053650000000000000000000000000000539924730000000000000000000053637500000000000000000000000000591980940000000000000000000053625000000000000000000000000000592785530000000000000000000053612500000000000000000000000000614511060000000000000000000053600000000000000000000000000000547205810000000000000000000053587500000000000000000000000000537389880000000000000000000053575000000000000000000000000000580769460000000000000000000053562500000000000000000000000000552298040000000000000000000053550000000000000000000000000000549047210000000000000000000053537500000000000000000000000000568810220000000000000000000053525000000000000000000000000000563593050000000000000000000053512500000000000000000000000000546565750000000000000000000053500000000000000000000000000000553757040000000000000000000053487500000000000000000000000000557120150000000000000000000053475000000000000000000000000000540675240000000000000000000053462500000000000000000000000000568612120000000000000000000053450000000000000000000000000000561072360000000000000000000053437500000000000000000000000000550118220000000000000000000053425000000000000000000000000000546215460000000000000000000053412500000000000000000000000000547154520000000000000000000053400000000000000000000000000000586493020000000000000000000053387500000000000000000000000000579817400000000000000000000053375000000000000000000000000000552911760000000000000000000053362500000000000000000000000000557521770000000000000000000053350000000000000000000000000000559667230000000000000000000053337500000000000000000000000000593965260000000000000000000053325000000000000000000000000000532231570000000000000000000053312500000000000000000000000000486969170000000000000000000053300000000000000000000000000000535315140000000000000000000053287500000000000000000000000000514723480000000000000000000053275000000000000000000000000000514936420000000000000000000053262500000000000000000000000000525318160000000000000000000053250000000000000000000000000000494587580000000000000000000053237500000000000000000000000000521285030000000000000000000053225000000000000000000000000000525828860000000000000000000053212500000000000000000000000000551472440000000000000000000053200000000000000000000000000000558333650000000000000000000053187500000000000000000000000000584124780000000000000000000053175000000000000000000000000000540214420000000000000000000053162500000000000000000000000000525612510000000000000000000053150000000000000000000000000000512190870000000000000000000053137500000000000000000000000000569182790000000000000000000053125000000000000000000000000000534435180000000000000000000053112500000000000000000000000000504280020000000000000000000053100000000000000000000000000000552879840000000000000000000053087500000000000000000000000000583051930000000000000000000053075000000000000000000000000000557354470000000000000000000053062500000000000000000000000000553001410000000000000000000053050000000000000000000000000000569859300000000000000000000053037500000000000000000000000000511246860000000000000000000053025000000000000000000000000000502236890000000000000000000053012500000000000000000000000000516601950000000000000000000053000000000000000000000,
    559023960000000000000000000054587500000000000000000000000000591314230000000000000000000054575000000000000000000000000000599427910000000000000000000054562500000000000000000000000000553336970000000000000000000054550000000000000000000000000000533908160000000000000000000054537500000000000000000000000000500331870000000000000000000054525000000000000000000000000000480884970000000000000000000054512500000000000000000000000000533147520000000000000000000054500000000000000000000000000000545896110000000000000000000054487500000000000000000000000000532139040000000000000000000054475000000000000000000000000000539249070000000000000000000054462500000000000000000000000000522383380000000000000000000054450000000000000000000000000000551453030000000000000000000054437500000000000000000000000000566125720000000000000000000054425000000000000000000000000000522937330000000000000000000054412500000000000000000000000000488806100000000000000000000054400000000000000000000000000000497084720000000000000000000054387500000000000000000000000000527781760000000000000000000054375000000000000000000000000000548464420000000000000000000054362500000000000000000000000000564576520000000000000000000054350000000000000000000000000000533274710000000000000000000054337500000000000000000000000000495169460000000000000000000054325000000000000000000000000000483537440000000000000000000054312500000000000000000000000000530278170000000000000000000054300000000000000000000000000000614705100000000000000000000054287500000000000000000000000000564322020000000000000000000054275000000000000000000000000000545070600000000000000000000054262500000000000000000000000000555449240000000000000000000054250000000000000000000000000000566656650000000000000000000054237500000000000000000000000000556527910000000000000000000054225000000000000000000000000000558966900000000000000000000054212500000000000000000000000000555784850000000000000000000054200000000000000000000000000000525963820000000000000000000054187500000000000000000000000000516967800000000000000000000054175000000000000000000000000000536464480000000000000000000054162500000000000000000000000000564187050000000000000000000054150000000000000000000000000000532009420000000000000000000054137500000000000000000000000000529231290000000000000000000054125000000000000000000000000000549414040000000000000000000054112500000000000000000000000000527946880000000000000000000054100000000000000000000000000000516622560000000000000000000054087500000000000000000000000000497184170000000000000000000054075000000000000000000000000000520502010000000000000000000054062500000000000000000000000000516580860000000000000000000054050000000000000000000000000000527872480000000000000000000054037500000000000000000000000000538393580000000000000000000054025000000000000000000000000000569206170000000000000000000054012500000000000000000000000000569915940000000000000000000054000000000000000000000000000000557775690000000000000000000053987500000000000000000000000000555354660000000000000000000053975000000000000000000000000000581523410000000000000000000053962500000000000000000000000000561081070000000000000000000053950000000000000000000000000000568775070000000000000000000053937500000000000000000000000000589116680000000000000000000053925000000000000000000000000000572376310000000000000000000053912500000000000000000000000000537164860000000000000000000053900000000000000000000000000000512522620000000000000000000053887500000000000000000000000000492449580000000000000000000053875000000000000000000000000000528079820000000000000000000053862500000000000000000000000000540309710000000000000000000053850000000000000000000000000000549919290000000000000000000053837500000000000000000000000000509323000000000000000000000053825000000000000000000000000000525169280000000000000000000053812500000000000000000000000000530477700000000000000000000053800000000000000000000,
    593830650000000000000000000055387500000000000000000000000000538577130000000000000000000055375000000000000000000000000000528244360000000000000000000055362500000000000000000000000000541927810000000000000000000055350000000000000000000000000000562853210000000000000000000055337500000000000000000000000000564453630000000000000000000055325000000000000000000000000000542166930000000000000000000055312500000000000000000000000000540315940000000000000000000055300000000000000000000000000000572825850000000000000000000055287500000000000000000000000000508720730000000000000000000055275000000000000000000000000000517890750000000000000000000055262500000000000000000000000000532627790000000000000000000055250000000000000000000000000000536574420000000000000000000055237500000000000000000000000000563810630000000000000000000055225000000000000000000000000000566648970000000000000000000055212500000000000000000000000000572376820000000000000000000055200000000000000000000000000000556007660000000000000000000055187500000000000000000000000000527182600000000000000000000055175000000000000000000000000000537258630000000000000000000055162500000000000000000000000000556112030000000000000000000055150000000000000000000000000000501861950000000000000000000055137500000000000000000000000000504223750000000000000000000055125000000000000000000000000000551269540000000000000000000055112500000000000000000000000000575406270000000000000000000055100000000000000000000000000000562222570000000000000000000055087500000000000000000000000000548278760000000000000000000055075000000000000000000000000000542469670000000000000000000055062500000000000000000000000000549464200000000000000000000055050000000000000000000000000000555641910000000000000000000055037500000000000000000000000000556262820000000000000000000055025000000000000000000000000000549175950000000000000000000055012500000000000000000000000000524068120000000000000000000055000000000000000000000000000000494114170000000000000000000054987500000000000000000000000000509966970000000000000000000054975000000000000000000000000000541051890000000000000000000054962500000000000000000000000000577587700000000000000000000054950000000000000000000000000000548153300000000000000000000054937500000000000000000000000000526220350000000000000000000054925000000000000000000000000000522862050000000000000000000054912500000000000000000000000000543334690000000000000000000054900000000000000000000000000000522571710000000000000000000054887500000000000000000000000000530079740000000000000000000054875000000000000000000000000000525316670000000000000000000054862500000000000000000000000000510400010000000000000000000054850000000000000000000000000000553845850000000000000000000054837500000000000000000000000000569985310000000000000000000054825000000000000000000000000000558741810000000000000000000054812500000000000000000000000000543947450000000000000000000054800000000000000000000000000000558236490000000000000000000054787500000000000000000000000000529439810000000000000000000054775000000000000000000000000000533739430000000000000000000054762500000000000000000000000000511602690000000000000000000054750000000000000000000000000000491532380000000000000000000054737500000000000000000000000000539239000000000000000000000054725000000000000000000000000000561344300000000000000000000054712500000000000000000000000000530456490000000000000000000054700000000000000000000000000000512504690000000000000000000054687500000000000000000000000000533588660000000000000000000054675000000000000000000000000000531473330000000000000000000054662500000000000000000000000000539767890000000000000000000054650000000000000000000000000000543549150000000000000000000054637500000000000000000000000000528055330000000000000000000054625000000000000000000000000000510571140000000000000000000054612500000000000000000000000000544697460000000000000000000054600000000000000000000,
    570189950000000000000000000056187500000000000000000000000000555675080000000000000000000056175000000000000000000000000000557887710000000000000000000056162500000000000000000000000000573857040000000000000000000056150000000000000000000000000000576602140000000000000000000056137500000000000000000000000000557398730000000000000000000056125000000000000000000000000000524641010000000000000000000056112500000000000000000000000000543771140000000000000000000056100000000000000000000000000000545271830000000000000000000056087500000000000000000000000000513714040000000000000000000056075000000000000000000000000000502860740000000000000000000056062500000000000000000000000000522278090000000000000000000056050000000000000000000000000000512219610000000000000000000056037500000000000000000000000000575245980000000000000000000056025000000000000000000000000000533101760000000000000000000056012500000000000000000000000000524368820000000000000000000056000000000000000000000000000000583569960000000000000000000055987500000000000000000000000000551172440000000000000000000055975000000000000000000000000000526334520000000000000000000055962500000000000000000000000000531363780000000000000000000055950000000000000000000000000000537139200000000000000000000055937500000000000000000000000000574480960000000000000000000055925000000000000000000000000000561710750000000000000000000055912500000000000000000000000000567763850000000000000000000055900000000000000000000000000000570938510000000000000000000055887500000000000000000000000000545087290000000000000000000055875000000000000000000000000000548345690000000000000000000055862500000000000000000000000000519200310000000000000000000055850000000000000000000000000000544040920000000000000000000055837500000000000000000000000000563523170000000000000000000055825000000000000000000000000000576011630000000000000000000055812500000000000000000000000000592064290000000000000000000055800000000000000000000000000000554394390000000000000000000055787500000000000000000000000000579236340000000000000000000055775000000000000000000000000000572751560000000000000000000055762500000000000000000000000000546303320000000000000000000055750000000000000000000000000000535613490000000000000000000055737500000000000000000000000000557556870000000000000000000055725000000000000000000000000000600871080000000000000000000055712500000000000000000000000000578236350000000000000000000055700000000000000000000000000000552327840000000000000000000055687500000000000000000000000000569149090000000000000000000055675000000000000000000000000000556996950000000000000000000055662500000000000000000000000000533450710000000000000000000055650000000000000000000000000000528401360000000000000000000055637500000000000000000000000000597683580000000000000000000055625000000000000000000000000000560851060000000000000000000055612500000000000000000000000000521911130000000000000000000055600000000000000000000000000000540587590000000000000000000055587500000000000000000000000000556432520000000000000000000055575000000000000000000000000000499763920000000000000000000055562500000000000000000000000000528397290000000000000000000055550000000000000000000000000000568322030000000000000000000055537500000000000000000000000000563371040000000000000000000055525000000000000000000000000000591585020000000000000000000055512500000000000000000000000000624104540000000000000000000055500000000000000000000000000000546424170000000000000000000055487500000000000000000000000000532019830000000000000000000055475000000000000000000000000000530628830000000000000000000055462500000000000000000000000000590286620000000000000000000055450000000000000000000000000000606880810000000000000000000055437500000000000000000000000000581340700000000000000000000055425000000000000000000000000000561449230000000000000000000055412500000000000000000000000000596102950000000000000000000055400000000000000000000,
    550371600000000000000000000056987500000000000000000000000000525397670000000000000000000056975000000000000000000000000000567635840000000000000000000056962500000000000000000000000000590441060000000000000000000056950000000000000000000000000000559213660000000000000000000056937500000000000000000000000000543621040000000000000000000056925000000000000000000000000000518200700000000000000000000056912500000000000000000000000000516452860000000000000000000056900000000000000000000000000000533491600000000000000000000056887500000000000000000000000000564071920000000000000000000056875000000000000000000000000000580601050000000000000000000056862500000000000000000000000000562337960000000000000000000056850000000000000000000000000000548515350000000000000000000056837500000000000000000000000000580584510000000000000000000056825000000000000000000000000000575820840000000000000000000056812500000000000000000000000000581878950000000000000000000056800000000000000000000000000000542011170000000000000000000056787500000000000000000000000000550523820000000000000000000056775000000000000000000000000000539669150000000000000000000056762500000000000000000000000000527528690000000000000000000056750000000000000000000000000000543496590000000000000000000056737500000000000000000000000000574716200000000000000000000056725000000000000000000000000000541153550000000000000000000056712500000000000000000000000000497798540000000000000000000056700000000000000000000000000000487733580000000000000000000056687500000000000000000000000000571648630000000000000000000056675000000000000000000000000000605620500000000000000000000056662500000000000000000000000000552246540000000000000000000056650000000000000000000000000000564527800000000000000000000056637500000000000000000000000000557832450000000000000000000056625000000000000000000000000000537975400000000000000000000056612500000000000000000000000000588254850000000000000000000056600000000000000000000000000000605316500000000000000000000056587500000000000000000000000000564994240000000000000000000056575000000000000000000000000000512884980000000000000000000056562500000000000000000000000000548878270000000000000000000056550000000000000000000000000000564986690000000000000000000056537500000000000000000000000000545805720000000000000000000056525000000000000000000000000000575762550000000000000000000056512500000000000000000000000000645615190000000000000000000056500000000000000000000000000000629420190000000000000000000056487500000000000000000000000000570260580000000000000000000056475000000000000000000000000000596183540000000000000000000056462500000000000000000000000000599042790000000000000000000056450000000000000000000000000000542383670000000000000000000056437500000000000000000000000000587177530000000000000000000056425000000000000000000000000000595847140000000000000000000056412500000000000000000000000000562867090000000000000000000056400000000000000000000000000000540528750000000000000000000056387500000000000000000000000000550609990000000000000000000056375000000000000000000000000000590682250000000000000000000056362500000000000000000000000000627576440000000000000000000056350000000000000000000000000000607536610000000000000000000056337500000000000000000000000000589330340000000000000000000056325000000000000000000000000000568522880000000000000000000056312500000000000000000000000000583448340000000000000000000056300000000000000000000000000000550561060000000000000000000056287500000000000000000000000000575379610000000000000000000056275000000000000000000000000000594005390000000000000000000056262500000000000000000000000000586055860000000000000000000056250000000000000000000000000000562112350000000000000000000056237500000000000000000000000000576974980000000000000000000056225000000000000000000000000000584310180000000000000000000056212500000000000000000000000000567376300000000000000000000056200000000000000000000,
    577159810000000000000000000057787500000000000000000000000000556353590000000000000000000057775000000000000000000000000000549213130000000000000000000057762500000000000000000000000000533702960000000000000000000057750000000000000000000000000000566864690000000000000000000057737500000000000000000000000000619026860000000000000000000057725000000000000000000000000000560645480000000000000000000057712500000000000000000000000000529660520000000000000000000057700000000000000000000000000000586319420000000000000000000057687500000000000000000000000000552294620000000000000000000057675000000000000000000000000000556173030000000000000000000057662500000000000000000000000000540820220000000000000000000057650000000000000000000000000000523760440000000000000000000057637500000000000000000000000000544544700000000000000000000057625000000000000000000000000000508801180000000000000000000057612500000000000000000000000000531529980000000000000000000057600000000000000000000000000000585457230000000000000000000057587500000000000000000000000000562233880000000000000000000057575000000000000000000000000000546003180000000000000000000057562500000000000000000000000000577449620000000000000000000057550000000000000000000000000000587000230000000000000000000057537500000000000000000000000000586584270000000000000000000057525000000000000000000000000000593103660000000000000000000057512500000000000000000000000000584833830000000000000000000057500000000000000000000000000000566600890000000000000000000057487500000000000000000000000000559072490000000000000000000057475000000000000000000000000000552504510000000000000000000057462500000000000000000000000000606758400000000000000000000057450000000000000000000000000000596110150000000000000000000057437500000000000000000000000000581516870000000000000000000057425000000000000000000000000000588751880000000000000000000057412500000000000000000000000000576649920000000000000000000057400000000000000000000000000000557504080000000000000000000057387500000000000000000000000000594014650000000000000000000057375000000000000000000000000000592842010000000000000000000057362500000000000000000000000000565462350000000000000000000057350000000000000000000000000000533175110000000000000000000057337500000000000000000000000000531951510000000000000000000057325000000000000000000000000000550734290000000000000000000057312500000000000000000000000000538814370000000000000000000057300000000000000000000000000000542546420000000000000000000057287500000000000000000000000000582006200000000000000000000057275000000000000000000000000000642781380000000000000000000057262500000000000000000000000000566238200000000000000000000057250000000000000000000000000000530945490000000000000000000057237500000000000000000000000000551961810000000000000000000057225000000000000000000000000000566794990000000000000000000057212500000000000000000000000000570745920000000000000000000057200000000000000000000000000000572073280000000000000000000057187500000000000000000000000000519091650000000000000000000057175000000000000000000000000000546801580000000000000000000057162500000000000000000000000000572524710000000000000000000057150000000000000000000000000000556472920000000000000000000057137500000000000000000000000000564545380000000000000000000057125000000000000000000000000000579128390000000000000000000057112500000000000000000000000000570249620000000000000000000057100000000000000000000000000000561512000000000000000000000057087500000000000000000000000000566819380000000000000000000057075000000000000000000000000000570438370000000000000000000057062500000000000000000000000000599763440000000000000000000057050000000000000000000000000000624533970000000000000000000057037500000000000000000000000000564857740000000000000000000057025000000000000000000000000000521329200000000000000000000057012500000000000000000000000000532209180000000000000000000057000000000000000000000,
    603289510000000000000000000058587500000000000000000000000000614733390000000000000000000058575000000000000000000000000000616020510000000000000000000058562500000000000000000000000000593889250000000000000000000058550000000000000000000000000000535756170000000000000000000058537500000000000000000000000000501430760000000000000000000058525000000000000000000000000000540221890000000000000000000058512500000000000000000000000000568293690000000000000000000058500000000000000000000000000000551441060000000000000000000058487500000000000000000000000000542013040000000000000000000058475000000000000000000000000000549965450000000000000000000058462500000000000000000000000000537571130000000000000000000058450000000000000000000000000000559981800000000000000000000058437500000000000000000000000000541225370000000000000000000058425000000000000000000000000000535704990000000000000000000058412500000000000000000000000000579102390000000000000000000058400000000000000000000000000000548667030000000000000000000058387500000000000000000000000000570111480000000000000000000058375000000000000000000000000000612174160000000000000000000058362500000000000000000000000000592974570000000000000000000058350000000000000000000000000000546714650000000000000000000058337500000000000000000000000000552291190000000000000000000058325000000000000000000000000000570665860000000000000000000058312500000000000000000000000000540622750000000000000000000058300000000000000000000000000000542892290000000000000000000058287500000000000000000000000000554006530000000000000000000058275000000000000000000000000000527669600000000000000000000058262500000000000000000000000000546792730000000000000000000058250000000000000000000000000000537587030000000000000000000058237500000000000000000000000000531897170000000000000000000058225000000000000000000000000000541125620000000000000000000058212500000000000000000000000000558574480000000000000000000058200000000000000000000000000000550288530000000000000000000058187500000000000000000000000000532519560000000000000000000058175000000000000000000000000000561492090000000000000000000058162500000000000000000000000000569697360000000000000000000058150000000000000000000000000000622838180000000000000000000058137500000000000000000000000000606534680000000000000000000058125000000000000000000000000000576533770000000000000000000058112500000000000000000000000000560213490000000000000000000058100000000000000000000000000000600839470000000000000000000058087500000000000000000000000000581063330000000000000000000058075000000000000000000000000000582243540000000000000000000058062500000000000000000000000000599808050000000000000000000058050000000000000000000000000000604100360000000000000000000058037500000000000000000000000000608181760000000000000000000058025000000000000000000000000000565584660000000000000000000058012500000000000000000000000000574246320000000000000000000058000000000000000000000000000000590090170000000000000000000057987500000000000000000000000000613784280000000000000000000057975000000000000000000000000000589078620000000000000000000057962500000000000000000000000000558169030000000000000000000057950000000000000000000000000000613413660000000000000000000057937500000000000000000000000000594908790000000000000000000057925000000000000000000000000000567020240000000000000000000057912500000000000000000000000000593640530000000000000000000057900000000000000000000000000000578721830000000000000000000057887500000000000000000000000000572412810000000000000000000057875000000000000000000000000000559192680000000000000000000057862500000000000000000000000000550235640000000000000000000057850000000000000000000000000000553831370000000000000000000057837500000000000000000000000000550114940000000000000000000057825000000000000000000000000000550696060000000000000000000057812500000000000000000000000000592618100000000000000000000057800000000000000000000,
    568131470000000000000000000059387500000000000000000000000000588544470000000000000000000059375000000000000000000000000000576539070000000000000000000059362500000000000000000000000000496778550000000000000000000059350000000000000000000000000000530293020000000000000000000059337500000000000000000000000000576828790000000000000000000059325000000000000000000000000000585920370000000000000000000059312500000000000000000000000000571344660000000000000000000059300000000000000000000000000000585685050000000000000000000059287500000000000000000000000000572600540000000000000000000059275000000000000000000000000000550701020000000000000000000059262500000000000000000000000000551251470000000000000000000059250000000000000000000000000000579111420000000000000000000059237500000000000000000000000000596591730000000000000000000059225000000000000000000000000000581019700000000000000000000059212500000000000000000000000000560999780000000000000000000059200000000000000000000000000000555347460000000000000000000059187500000000000000000000000000578681280000000000000000000059175000000000000000000000000000591189110000000000000000000059162500000000000000000000000000543604980000000000000000000059150000000000000000000000000000515300960000000000000000000059137500000000000000000000000000531422260000000000000000000059125000000000000000000000000000521363460000000000000000000059112500000000000000000000000000567632640000000000000000000059100000000000000000000000000000560784580000000000000000000059087500000000000000000000000000576683300000000000000000000059075000000000000000000000000000602877510000000000000000000059062500000000000000000000000000584713410000000000000000000059050000000000000000000000000000551780330000000000000000000059037500000000000000000000000000515431150000000000000000000059025000000000000000000000000000545334880000000000000000000059012500000000000000000000000000594734860000000000000000000059000000000000000000000000000000578729840000000000000000000058987500000000000000000000000000554192050000000000000000000058975000000000000000000000000000551197400000000000000000000058962500000000000000000000000000556223170000000000000000000058950000000000000000000000000000543924370000000000000000000058937500000000000000000000000000532202380000000000000000000058925000000000000000000000000000524021790000000000000000000058912500000000000000000000000000536410940000000000000000000058900000000000000000000000000000555311920000000000000000000058887500000000000000000000000000544659540000000000000000000058875000000000000000000000000000553809780000000000000000000058862500000000000000000000000000562605900000000000000000000058850000000000000000000000000000552196580000000000000000000058837500000000000000000000000000546087700000000000000000000058825000000000000000000000000000563764920000000000000000000058812500000000000000000000000000575084410000000000000000000058800000000000000000000000000000622755860000000000000000000058787500000000000000000000000000609942170000000000000000000058775000000000000000000000000000596849650000000000000000000058762500000000000000000000000000568273700000000000000000000058750000000000000000000000000000559921650000000000000000000058737500000000000000000000000000533091150000000000000000000058725000000000000000000000000000549469780000000000000000000058712500000000000000000000000000586194140000000000000000000058700000000000000000000000000000571476990000000000000000000058687500000000000000000000000000574443250000000000000000000058675000000000000000000000000000592584320000000000000000000058662500000000000000000000000000549854100000000000000000000058650000000000000000000000000000559434070000000000000000000058637500000000000000000000000000593792080000000000000000000058625000000000000000000000000000574730330000000000000000000058612500000000000000000000000000578217890000000000000000000058600000000000000000000,
    553206940000000000000000000060187500000000000000000000000000525478780000000000000000000060175000000000000000000000000000502100010000000000000000000060162500000000000000000000000000590058670000000000000000000060150000000000000000000000000000587629410000000000000000000060137500000000000000000000000000569541800000000000000000000060125000000000000000000000000000618030360000000000000000000060112500000000000000000000000000592283210000000000000000000060100000000000000000000000000000557642730000000000000000000060087500000000000000000000000000560477380000000000000000000060075000000000000000000000000000540818090000000000000000000060062500000000000000000000000000533361130000000000000000000060050000000000000000000000000000549994780000000000000000000060037500000000000000000000000000597029130000000000000000000060025000000000000000000000000000617521970000000000000000000060012500000000000000000000000000611511730000000000000000000060000000000000000000000000000000613106860000000000000000000059987500000000000000000000000000616255690000000000000000000059975000000000000000000000000000563246360000000000000000000059962500000000000000000000000000572111820000000000000000000059950000000000000000000000000000592113910000000000000000000059937500000000000000000000000000578124090000000000000000000059925000000000000000000000000000610582540000000000000000000059912500000000000000000000000000590046280000000000000000000059900000000000000000000000000000587748840000000000000000000059887500000000000000000000000000567677160000000000000000000059875000000000000000000000000000523625530000000000000000000059862500000000000000000000000000559945350000000000000000000059850000000000000000000000000000542487560000000000000000000059837500000000000000000000000000580304400000000000000000000059825000000000000000000000000000610397290000000000000000000059812500000000000000000000000000571038460000000000000000000059800000000000000000000000000000523445540000000000000000000059787500000000000000000000000000565100590000000000000000000059775000000000000000000000000000547005680000000000000000000059762500000000000000000000000000571370280000000000000000000059750000000000000000000000000000605992670000000000000000000059737500000000000000000000000000613779100000000000000000000059725000000000000000000000000000589298760000000000000000000059712500000000000000000000000000592893270000000000000000000059700000000000000000000000000000594649280000000000000000000059687500000000000000000000000000584355460000000000000000000059675000000000000000000000000000534690860000000000000000000059662500000000000000000000000000513375560000000000000000000059650000000000000000000000000000527969090000000000000000000059637500000000000000000000000000575189440000000000000000000059625000000000000000000000000000562029240000000000000000000059612500000000000000000000000000516899130000000000000000000059600000000000000000000000000000576201710000000000000000000059587500000000000000000000000000628862860000000000000000000059575000000000000000000000000000619715450000000000000000000059562500000000000000000000000000555902170000000000000000000059550000000000000000000000000000554454530000000000000000000059537500000000000000000000000000585427270000000000000000000059525000000000000000000000000000618395910000000000000000000059512500000000000000000000000000658742990000000000000000000059500000000000000000000000000000623950570000000000000000000059487500000000000000000000000000556677010000000000000000000059475000000000000000000000000000562539510000000000000000000059462500000000000000000000000000575760130000000000000000000059450000000000000000000000000000618142990000000000000000000059437500000000000000000000000000540361100000000000000000000059425000000000000000000000000000538178040000000000000000000059412500000000000000000000000000547047230000000000000000000059400000000000000000000,
    597946620000000000000000000060987500000000000000000000000000596239850000000000000000000060975000000000000000000000000000554673950000000000000000000060962500000000000000000000000000568444580000000000000000000060950000000000000000000000000000561218260000000000000000000060937500000000000000000000000000611005710000000000000000000060925000000000000000000000000000573099790000000000000000000060912500000000000000000000000000570520160000000000000000000060900000000000000000000000000000596836610000000000000000000060887500000000000000000000000000622853260000000000000000000060875000000000000000000000000000576506270000000000000000000060862500000000000000000000000000516996020000000000000000000060850000000000000000000000000000526777020000000000000000000060837500000000000000000000000000590823830000000000000000000060825000000000000000000000000000597638790000000000000000000060812500000000000000000000000000591513620000000000000000000060800000000000000000000000000000537732140000000000000000000060787500000000000000000000000000519934140000000000000000000060775000000000000000000000000000551269500000000000000000000060762500000000000000000000000000562938050000000000000000000060750000000000000000000000000000564783390000000000000000000060737500000000000000000000000000595531670000000000000000000060725000000000000000000000000000583722630000000000000000000060712500000000000000000000000000575555810000000000000000000060700000000000000000000000000000577750110000000000000000000060687500000000000000000000000000558558650000000000000000000060675000000000000000000000000000553314330000000000000000000060662500000000000000000000000000604662600000000000000000000060650000000000000000000000000000626152340000000000000000000060637500000000000000000000000000575156830000000000000000000060625000000000000000000000000000576240560000000000000000000060612500000000000000000000000000562191590000000000000000000060600000000000000000000000000000549832290000000000000000000060587500000000000000000000000000547900160000000000000000000060575000000000000000000000000000545511510000000000000000000060562500000000000000000000000000557403300000000000000000000060550000000000000000000000000000590638970000000000000000000060537500000000000000000000000000552897340000000000000000000060525000000000000000000000000000532525430000000000000000000060512500000000000000000000000000607251670000000000000000000060500000000000000000000000000000586051860000000000000000000060487500000000000000000000000000607143070000000000000000000060475000000000000000000000000000614072870000000000000000000060462500000000000000000000000000569481830000000000000000000060450000000000000000000000000000542058770000000000000000000060437500000000000000000000000000528474780000000000000000000060425000000000000000000000000000509859220000000000000000000060412500000000000000000000000000540115050000000000000000000060400000000000000000000000000000577761750000000000000000000060387500000000000000000000000000542541210000000000000000000060375000000000000000000000000000548531900000000000000000000060362500000000000000000000000000543964010000000000000000000060350000000000000000000000000000581060300000000000000000000060337500000000000000000000000000610036980000000000000000000060325000000000000000000000000000582629750000000000000000000060312500000000000000000000000000531071230000000000000000000060300000000000000000000000000000550583780000000000000000000060287500000000000000000000000000556312360000000000000000000060275000000000000000000000000000575828530000000000000000000060262500000000000000000000000000626595050000000000000000000060250000000000000000000000000000602530980000000000000000000060237500000000000000000000000000590754900000000000000000000060225000000000000000000000000000528065060000000000000000000060212500000000000000000000000000571426990000000000000000000060200000000000000000000,
    582486930000000000000000000061787500000000000000000000000000648924100000000000000000000061775000000000000000000000000000612531090000000000000000000061762500000000000000000000000000586793290000000000000000000061750000000000000000000000000000582611230000000000000000000061737500000000000000000000000000566408610000000000000000000061725000000000000000000000000000575530910000000000000000000061712500000000000000000000000000592269380000000000000000000061700000000000000000000000000000596904840000000000000000000061687500000000000000000000000000563387300000000000000000000061675000000000000000000000000000556468320000000000000000000061662500000000000000000000000000559302250000000000000000000061650000000000000000000000000000554401240000000000000000000061637500000000000000000000000000573510370000000000000000000061625000000000000000000000000000591679210000000000000000000061612500000000000000000000000000604701880000000000000000000061600000000000000000000000000000570350020000000000000000000061587500000000000000000000000000553529670000000000000000000061575000000000000000000000000000553641190000000000000000000061562500000000000000000000000000544274750000000000000000000061550000000000000000000000000000568924320000000000000000000061537500000000000000000000000000602379740000000000000000000061525000000000000000000000000001094572800000000000000000000061512500000000000000000000000001233584100000000000000000000061500000000000000000000000000000594526180000000000000000000061487500000000000000000000000000576742840000000000000000000061475000000000000000000000000000582905920000000000000000000061462500000000000000000000000000530081490000000000000000000061450000000000000000000000000000559944750000000000000000000061437500000000000000000000000000551812440000000000000000000061425000000000000000000000000000527220570000000000000000000061412500000000000000000000000000535637210000000000000000000061400000000000000000000000000000554112150000000000000000000061387500000000000000000000000000587762660000000000000000000061375000000000000000000000000000623506260000000000000000000061362500000000000000000000000000599331670000000000000000000061350000000000000000000000000000573848550000000000000000000061337500000000000000000000000000596369840000000000000000000061325000000000000000000000000000605018950000000000000000000061312500000000000000000000000000587147740000000000000000000061300000000000000000000000000000592255850000000000000000000061287500000000000000000000000000606494240000000000000000000061275000000000000000000000000000886645180000000000000000000061262500000000000000000000000001953124000000000000000000000061250000000000000000000000000001414318300000000000000000000061237500000000000000000000000000613969010000000000000000000061225000000000000000000000000000552744240000000000000000000061212500000000000000000000000000508145360000000000000000000061200000000000000000000000000000537429800000000000000000000061187500000000000000000000000000577997470000000000000000000061175000000000000000000000000000617699280000000000000000000061162500000000000000000000000000608037280000000000000000000061150000000000000000000000000000590846470000000000000000000061137500000000000000000000000000565794190000000000000000000061125000000000000000000000000000554815990000000000000000000061112500000000000000000000000000581318010000000000000000000061100000000000000000000000000000583085730000000000000000000061087500000000000000000000000000592846470000000000000000000061075000000000000000000000000000545050700000000000000000000061062500000000000000000000000000574438140000000000000000000061050000000000000000000000000000587814310000000000000000000061037500000000000000000000000000610854950000000000000000000061025000000000000000000000000000592101350000000000000000000061012500000000000000000000000000575542260000000000000000000061000000000000000000000,
    563253850000000000000000000062587500000000000000000000000000549136700000000000000000000062575000000000000000000000000000568416030000000000000000000062562500000000000000000000000000577617960000000000000000000062550000000000000000000000000000614144290000000000000000000062537500000000000000000000000000633963180000000000000000000062525000000000000000000000000000586322280000000000000000000062512500000000000000000000000000539613110000000000000000000062500000000000000000000000000000603983640000000000000000000062487500000000000000000000000000647530650000000000000000000062475000000000000000000000000000669436700000000000000000000062462500000000000000000000000000638179220000000000000000000062450000000000000000000000000000600792630000000000000000000062437500000000000000000000000000587871240000000000000000000062425000000000000000000000000000558173710000000000000000000062412500000000000000000000000000584191530000000000000000000062400000000000000000000000000000588696650000000000000000000062387500000000000000000000000000609970610000000000000000000062375000000000000000000000000000583502190000000000000000000062362500000000000000000000000000578773320000000000000000000062350000000000000000000000000000582879170000000000000000000062337500000000000000000000000000575526320000000000000000000062325000000000000000000000000000626379320000000000000000000062312500000000000000000000000000595021530000000000000000000062300000000000000000000000000000549574580000000000000000000062287500000000000000000000000000531482270000000000000000000062275000000000000000000000000000557112430000000000000000000062262500000000000000000000000000593332550000000000000000000062250000000000000000000000000000594954650000000000000000000062237500000000000000000000000000627758880000000000000000000062225000000000000000000000000000616194670000000000000000000062212500000000000000000000000000589265120000000000000000000062200000000000000000000000000000582855060000000000000000000062187500000000000000000000000000580775160000000000000000000062175000000000000000000000000000575144740000000000000000000062162500000000000000000000000000586420790000000000000000000062150000000000000000000000000000570763190000000000000000000062137500000000000000000000000000578901640000000000000000000062125000000000000000000000000000581247730000000000000000000062112500000000000000000000000000592901140000000000000000000062100000000000000000000000000000577937420000000000000000000062087500000000000000000000000000543489210000000000000000000062075000000000000000000000000000564717940000000000000000000062062500000000000000000000000000618589730000000000000000000062050000000000000000000000000000649400930000000000000000000062037500000000000000000000000000618204160000000000000000000062025000000000000000000000000000569403180000000000000000000062012500000000000000000000000000548039340000000000000000000062000000000000000000000000000000584094500000000000000000000061987500000000000000000000000000604293980000000000000000000061975000000000000000000000000000551120440000000000000000000061962500000000000000000000000000606815210000000000000000000061950000000000000000000000000000597488080000000000000000000061937500000000000000000000000000578167820000000000000000000061925000000000000000000000000000541227730000000000000000000061912500000000000000000000000000552558240000000000000000000061900000000000000000000000000000629111740000000000000000000061887500000000000000000000000000613367980000000000000000000061875000000000000000000000000000614252720000000000000000000061862500000000000000000000000000563873320000000000000000000061850000000000000000000000000000598001730000000000000000000061837500000000000000000000000000582936100000000000000000000061825000000000000000000000000000609672300000000000000000000061812500000000000000000000000000573769620000000000000000000061800000000000000000000,
    563100630000000000000000000063387500000000000000000000000000545172190000000000000000000063375000000000000000000000000000575143000000000000000000000063362500000000000000000000000000598620560000000000000000000063350000000000000000000000000000596531490000000000000000000063337500000000000000000000000000579385490000000000000000000063325000000000000000000000000000594152780000000000000000000063312500000000000000000000000000610624580000000000000000000063300000000000000000000000000000591193040000000000000000000063287500000000000000000000000000499639700000000000000000000063275000000000000000000000000000537426750000000000000000000063262500000000000000000000000000603250010000000000000000000063250000000000000000000000000000548175420000000000000000000063237500000000000000000000000000538461720000000000000000000063225000000000000000000000000000572825910000000000000000000063212500000000000000000000000000560340320000000000000000000063200000000000000000000000000000627144930000000000000000000063187500000000000000000000000000591998390000000000000000000063175000000000000000000000000000530368730000000000000000000063162500000000000000000000000000538004200000000000000000000063150000000000000000000000000000592922060000000000000000000063137500000000000000000000000000658314050000000000000000000063125000000000000000000000000000578374130000000000000000000063112500000000000000000000000000602180720000000000000000000063100000000000000000000000000000600597880000000000000000000063087500000000000000000000000000572165360000000000000000000063075000000000000000000000000000558840090000000000000000000063062500000000000000000000000000618148600000000000000000000063050000000000000000000000000000930907610000000000000000000063037500000000000000000000000000924947120000000000000000000063025000000000000000000000000001409451200000000000000000000063012500000000000000000000000000973295820000000000000000000063000000000000000000000000000000785023250000000000000000000062987500000000000000000000000000720436920000000000000000000062975000000000000000000000000000595512770000000000000000000062962500000000000000000000000000576642090000000000000000000062950000000000000000000000000000643451730000000000000000000062937500000000000000000000000000620851710000000000000000000062925000000000000000000000000000598872640000000000000000000062912500000000000000000000000000585344180000000000000000000062900000000000000000000000000000554760080000000000000000000062887500000000000000000000000000552952130000000000000000000062875000000000000000000000000000575314820000000000000000000062862500000000000000000000000000580320380000000000000000000062850000000000000000000000000000579889840000000000000000000062837500000000000000000000000000637051820000000000000000000062825000000000000000000000000000593325430000000000000000000062812500000000000000000000000000575329410000000000000000000062800000000000000000000000000000608327520000000000000000000062787500000000000000000000000000586720550000000000000000000062775000000000000000000000000000561916770000000000000000000062762500000000000000000000000000652167300000000000000000000062750000000000000000000000000000633482450000000000000000000062737500000000000000000000000000607042120000000000000000000062725000000000000000000000000000631457480000000000000000000062712500000000000000000000000000615008100000000000000000000062700000000000000000000000000000581956370000000000000000000062687500000000000000000000000000637845550000000000000000000062675000000000000000000000000000593168150000000000000000000062662500000000000000000000000000611122520000000000000000000062650000000000000000000000000000617111240000000000000000000062637500000000000000000000000000593202740000000000000000000062625000000000000000000000000000574772170000000000000000000062612500000000000000000000000000584442610000000000000000000062600000000000000000000,
    582859950000000000000000000064187500000000000000000000000000551823660000000000000000000064175000000000000000000000000000542343240000000000000000000064162500000000000000000000000000592005300000000000000000000064150000000000000000000000000000642234510000000000000000000064137500000000000000000000000000666744890000000000000000000064125000000000000000000000000000642941430000000000000000000064112500000000000000000000000000555432040000000000000000000064100000000000000000000000000000590866570000000000000000000064087500000000000000000000000000569845940000000000000000000064075000000000000000000000000000543612550000000000000000000064062500000000000000000000000000571681930000000000000000000064050000000000000000000000000000603168960000000000000000000064037500000000000000000000000000582571070000000000000000000064025000000000000000000000000000558077760000000000000000000064012500000000000000000000000000551862800000000000000000000064000000000000000000000000000000556621500000000000000000000063987500000000000000000000000000607469410000000000000000000063975000000000000000000000000000610437970000000000000000000063962500000000000000000000000000583603250000000000000000000063950000000000000000000000000000571480560000000000000000000063937500000000000000000000000000603537890000000000000000000063925000000000000000000000000000610465830000000000000000000063912500000000000000000000000000578366290000000000000000000063900000000000000000000000000000589332700000000000000000000063887500000000000000000000000000596732190000000000000000000063875000000000000000000000000000629060090000000000000000000063862500000000000000000000000000631622340000000000000000000063850000000000000000000000000000590771140000000000000000000063837500000000000000000000000000580231920000000000000000000063825000000000000000000000000000605922110000000000000000000063812500000000000000000000000000622993140000000000000000000063800000000000000000000000000000610238240000000000000000000063787500000000000000000000000000613657280000000000000000000063775000000000000000000000000000600211060000000000000000000063762500000000000000000000000000634869720000000000000000000063750000000000000000000000000000624594280000000000000000000063737500000000000000000000000000635034180000000000000000000063725000000000000000000000000000613394630000000000000000000063712500000000000000000000000000592434450000000000000000000063700000000000000000000000000000599158790000000000000000000063687500000000000000000000000000610319010000000000000000000063675000000000000000000000000000617930550000000000000000000063662500000000000000000000000000606063830000000000000000000063650000000000000000000000000000598105400000000000000000000063637500000000000000000000000000611562730000000000000000000063625000000000000000000000000000589667190000000000000000000063612500000000000000000000000000550732490000000000000000000063600000000000000000000000000000613967390000000000000000000063587500000000000000000000000000598567680000000000000000000063575000000000000000000000000000560517780000000000000000000063562500000000000000000000000000612612480000000000000000000063550000000000000000000000000000607303910000000000000000000063537500000000000000000000000000608585130000000000000000000063525000000000000000000000000000610077390000000000000000000063512500000000000000000000000000590003810000000000000000000063500000000000000000000000000000602857080000000000000000000063487500000000000000000000000000586202010000000000000000000063475000000000000000000000000000601351340000000000000000000063462500000000000000000000000000659542540000000000000000000063450000000000000000000000000000564838420000000000000000000063437500000000000000000000000000589886940000000000000000000063425000000000000000000000000000647974660000000000000000000063412500000000000000000000000000624135480000000000000000000063400000000000000000000,
    553519360000000000000000000064987500000000000000000000000000566626480000000000000000000064975000000000000000000000000000588537490000000000000000000064962500000000000000000000000000597923060000000000000000000064950000000000000000000000000000545195580000000000000000000064937500000000000000000000000000585323180000000000000000000064925000000000000000000000000000618036830000000000000000000064912500000000000000000000000000588593920000000000000000000064900000000000000000000000000000573516110000000000000000000064887500000000000000000000000000615064530000000000000000000064875000000000000000000000000000578194410000000000000000000064862500000000000000000000000000588071510000000000000000000064850000000000000000000000000000622005170000000000000000000064837500000000000000000000000000636329810000000000000000000064825000000000000000000000000000632756450000000000000000000064812500000000000000000000000000614226600000000000000000000064800000000000000000000000000000605256610000000000000000000064787500000000000000000000000000580216270000000000000000000064775000000000000000000000000000581747360000000000000000000064762500000000000000000000000000566042400000000000000000000064750000000000000000000000000000612936900000000000000000000064737500000000000000000000000000634532070000000000000000000064725000000000000000000000000000583643880000000000000000000064712500000000000000000000000000637605670000000000000000000064700000000000000000000000000000585986090000000000000000000064687500000000000000000000000000536515180000000000000000000064675000000000000000000000000000574984090000000000000000000064662500000000000000000000000000602411810000000000000000000064650000000000000000000000000000634114370000000000000000000064637500000000000000000000000000582775150000000000000000000064625000000000000000000000000000563018450000000000000000000064612500000000000000000000000000603370350000000000000000000064600000000000000000000000000000622881340000000000000000000064587500000000000000000000000000607414430000000000000000000064575000000000000000000000000000605731800000000000000000000064562500000000000000000000000000584310710000000000000000000064550000000000000000000000000000540171480000000000000000000064537500000000000000000000000000543231060000000000000000000064525000000000000000000000000000595821640000000000000000000064512500000000000000000000000000615038000000000000000000000064500000000000000000000000000000571824660000000000000000000064487500000000000000000000000000565342900000000000000000000064475000000000000000000000000000577014280000000000000000000064462500000000000000000000000000602196590000000000000000000064450000000000000000000000000000633077410000000000000000000064437500000000000000000000000000637022120000000000000000000064425000000000000000000000000000658429210000000000000000000064412500000000000000000000000000627240130000000000000000000064400000000000000000000000000000550691260000000000000000000064387500000000000000000000000000632173360000000000000000000064375000000000000000000000000000652467360000000000000000000064362500000000000000000000000000580848480000000000000000000064350000000000000000000000000000649641000000000000000000000064337500000000000000000000000000633494690000000000000000000064325000000000000000000000000000560718210000000000000000000064312500000000000000000000000000562490320000000000000000000064300000000000000000000000000000522274070000000000000000000064287500000000000000000000000000547041300000000000000000000064275000000000000000000000000000596418520000000000000000000064262500000000000000000000000000631761080000000000000000000064250000000000000000000000000000599851480000000000000000000064237500000000000000000000000000609181510000000000000000000064225000000000000000000000000000603166560000000000000000000064212500000000000000000000000000591144570000000000000000000064200000000000000000000,
    566053490000000000000000000065787500000000000000000000000000558798100000000000000000000065775000000000000000000000000000600891140000000000000000000065762500000000000000000000000000653613470000000000000000000065750000000000000000000000000000638495440000000000000000000065737500000000000000000000000000557065630000000000000000000065725000000000000000000000000000589460690000000000000000000065712500000000000000000000000000583821160000000000000000000065700000000000000000000000000000595542990000000000000000000065687500000000000000000000000000586629940000000000000000000065675000000000000000000000000000587234450000000000000000000065662500000000000000000000000000573279270000000000000000000065650000000000000000000000000000579211790000000000000000000065637500000000000000000000000000630687250000000000000000000065625000000000000000000000000000607874740000000000000000000065612500000000000000000000000000599297820000000000000000000065600000000000000000000000000000610571900000000000000000000065587500000000000000000000000000570900280000000000000000000065575000000000000000000000000000612104630000000000000000000065562500000000000000000000000000597685410000000000000000000065550000000000000000000000000000596742670000000000000000000065537500000000000000000000000000564674020000000000000000000065525000000000000000000000000000598758370000000000000000000065512500000000000000000000000000606102880000000000000000000065500000000000000000000000000000605098260000000000000000000065487500000000000000000000000000588268460000000000000000000065475000000000000000000000000000608155990000000000000000000065462500000000000000000000000000607224940000000000000000000065450000000000000000000000000000584796850000000000000000000065437500000000000000000000000000560949840000000000000000000065425000000000000000000000000000603909960000000000000000000065412500000000000000000000000000624444480000000000000000000065400000000000000000000000000000567833370000000000000000000065387500000000000000000000000000594915350000000000000000000065375000000000000000000000000000591916620000000000000000000065362500000000000000000000000000612795090000000000000000000065350000000000000000000000000000627896390000000000000000000065337500000000000000000000000000591261050000000000000000000065325000000000000000000000000000525051350000000000000000000065312500000000000000000000000000552342830000000000000000000065300000000000000000000000000000635286030000000000000000000065287500000000000000000000000000603204400000000000000000000065275000000000000000000000000000601392470000000000000000000065262500000000000000000000000000645106910000000000000000000065250000000000000000000000000000656852580000000000000000000065237500000000000000000000000000609093400000000000000000000065225000000000000000000000000000587633790000000000000000000065212500000000000000000000000000591270530000000000000000000065200000000000000000000000000000569504020000000000000000000065187500000000000000000000000000554391470000000000000000000065175000000000000000000000000000615900440000000000000000000065162500000000000000000000000000615624330000000000000000000065150000000000000000000000000000555579670000000000000000000065137500000000000000000000000000582831640000000000000000000065125000000000000000000000000000601858240000000000000000000065112500000000000000000000000000581108990000000000000000000065100000000000000000000000000000606902940000000000000000000065087500000000000000000000000000664437540000000000000000000065075000000000000000000000000000654659890000000000000000000065062500000000000000000000000000607447350000000000000000000065050000000000000000000000000000592146320000000000000000000065037500000000000000000000000000664237930000000000000000000065025000000000000000000000000000600072770000000000000000000065012500000000000000000000000000578300060000000000000000000065000000000000000000000,
    579361610000000000000000000066587500000000000000000000000000579331260000000000000000000066575000000000000000000000000000602403890000000000000000000066562500000000000000000000000000647767370000000000000000000066550000000000000000000000000000624291770000000000000000000066537500000000000000000000000000610982570000000000000000000066525000000000000000000000000000628086580000000000000000000066512500000000000000000000000000627999220000000000000000000066500000000000000000000000000000655250160000000000000000000066487500000000000000000000000000634315110000000000000000000066475000000000000000000000000000575232850000000000000000000066462500000000000000000000000000567028380000000000000000000066450000000000000000000000000000597359200000000000000000000066437500000000000000000000000000617805300000000000000000000066425000000000000000000000000000651673410000000000000000000066412500000000000000000000000000627450780000000000000000000066400000000000000000000000000000677249460000000000000000000066387500000000000000000000000000683608500000000000000000000066375000000000000000000000000000591026940000000000000000000066362500000000000000000000000000596371820000000000000000000066350000000000000000000000000000627440800000000000000000000066337500000000000000000000000000592704450000000000000000000066325000000000000000000000000000583280330000000000000000000066312500000000000000000000000000615523660000000000000000000066300000000000000000000000000000615995990000000000000000000066287500000000000000000000000000563689750000000000000000000066275000000000000000000000000000553110290000000000000000000066262500000000000000000000000000607032390000000000000000000066250000000000000000000000000000578252990000000000000000000066237500000000000000000000000000552519760000000000000000000066225000000000000000000000000000534372270000000000000000000066212500000000000000000000000000588144040000000000000000000066200000000000000000000000000000666978050000000000000000000066187500000000000000000000000000669183420000000000000000000066175000000000000000000000000000664702710000000000000000000066162500000000000000000000000000644606220000000000000000000066150000000000000000000000000000626966610000000000000000000066137500000000000000000000000000619746860000000000000000000066125000000000000000000000000000588609720000000000000000000066112500000000000000000000000000617122250000000000000000000066100000000000000000000000000000639062550000000000000000000066087500000000000000000000000000572745020000000000000000000066075000000000000000000000000000595678030000000000000000000066062500000000000000000000000000575290750000000000000000000066050000000000000000000000000000636793270000000000000000000066037500000000000000000000000000608046970000000000000000000066025000000000000000000000000000574252540000000000000000000066012500000000000000000000000000600600190000000000000000000066000000000000000000000000000000620465270000000000000000000065987500000000000000000000000000568515750000000000000000000065975000000000000000000000000000573480180000000000000000000065962500000000000000000000000000592924960000000000000000000065950000000000000000000000000000581725930000000000000000000065937500000000000000000000000000577599930000000000000000000065925000000000000000000000000000584020660000000000000000000065912500000000000000000000000000607220300000000000000000000065900000000000000000000000000000618359160000000000000000000065887500000000000000000000000000632127420000000000000000000065875000000000000000000000000000669327500000000000000000000065862500000000000000000000000000577213230000000000000000000065850000000000000000000000000000544925640000000000000000000065837500000000000000000000000000597012440000000000000000000065825000000000000000000000000000610068240000000000000000000065812500000000000000000000000000616117840000000000000000000065800000000000000000000,
    671600800000000000000000000067387500000000000000000000000000629844900000000000000000000067375000000000000000000000000000579171970000000000000000000067362500000000000000000000000000620779500000000000000000000067350000000000000000000000000000668116450000000000000000000067337500000000000000000000000000617718230000000000000000000067325000000000000000000000000000616681420000000000000000000067312500000000000000000000000000555405320000000000000000000067300000000000000000000000000000574615080000000000000000000067287500000000000000000000000000554560700000000000000000000067275000000000000000000000000000582423160000000000000000000067262500000000000000000000000000565219690000000000000000000067250000000000000000000000000000538423360000000000000000000067237500000000000000000000000000572198380000000000000000000067225000000000000000000000000000590773890000000000000000000067212500000000000000000000000000585463620000000000000000000067200000000000000000000000000000605500870000000000000000000067187500000000000000000000000000562868610000000000000000000067175000000000000000000000000000564293290000000000000000000067162500000000000000000000000000620217390000000000000000000067150000000000000000000000000000597307090000000000000000000067137500000000000000000000000000564464190000000000000000000067125000000000000000000000000000601893520000000000000000000067112500000000000000000000000000649312530000000000000000000067100000000000000000000000000000633067550000000000000000000067087500000000000000000000000000592705300000000000000000000067075000000000000000000000000000589741130000000000000000000067062500000000000000000000000000662557320000000000000000000067050000000000000000000000000000652261470000000000000000000067037500000000000000000000000000593883400000000000000000000067025000000000000000000000000000607170320000000000000000000067012500000000000000000000000000629630150000000000000000000067000000000000000000000000000000620450580000000000000000000066987500000000000000000000000000575491600000000000000000000066975000000000000000000000000000591080010000000000000000000066962500000000000000000000000000608280400000000000000000000066950000000000000000000000000000572052590000000000000000000066937500000000000000000000000000598379400000000000000000000066925000000000000000000000000000570104660000000000000000000066912500000000000000000000000000568393480000000000000000000066900000000000000000000000000000607104850000000000000000000066887500000000000000000000000000617874850000000000000000000066875000000000000000000000000000594041150000000000000000000066862500000000000000000000000000635958400000000000000000000066850000000000000000000000000000588133600000000000000000000066837500000000000000000000000000531268520000000000000000000066825000000000000000000000000000568853110000000000000000000066812500000000000000000000000000603235870000000000000000000066800000000000000000000000000000634677630000000000000000000066787500000000000000000000000000642389720000000000000000000066775000000000000000000000000000606186390000000000000000000066762500000000000000000000000000625024090000000000000000000066750000000000000000000000000000627034300000000000000000000066737500000000000000000000000000601202300000000000000000000066725000000000000000000000000000618641050000000000000000000066712500000000000000000000000000609217040000000000000000000066700000000000000000000000000000535264510000000000000000000066687500000000000000000000000000588512240000000000000000000066675000000000000000000000000000590714480000000000000000000066662500000000000000000000000000619072580000000000000000000066650000000000000000000000000000637898640000000000000000000066637500000000000000000000000000640983070000000000000000000066625000000000000000000000000000592652100000000000000000000066612500000000000000000000000000551647510000000000000000000066600000000000000000000,
    672107390000000000000000000068187500000000000000000000000000677465150000000000000000000068175000000000000000000000000000644766490000000000000000000068162500000000000000000000000000625854030000000000000000000068150000000000000000000000000000600111550000000000000000000068137500000000000000000000000000589451380000000000000000000068125000000000000000000000000000595574020000000000000000000068112500000000000000000000000000566379550000000000000000000068100000000000000000000000000000558944510000000000000000000068087500000000000000000000000000556429750000000000000000000068075000000000000000000000000000634147690000000000000000000068062500000000000000000000000000665309970000000000000000000068050000000000000000000000000000609405760000000000000000000068037500000000000000000000000000608101000000000000000000000068025000000000000000000000000000595209670000000000000000000068012500000000000000000000000000577703910000000000000000000068000000000000000000000000000000582693510000000000000000000067987500000000000000000000000000577134260000000000000000000067975000000000000000000000000000599030570000000000000000000067962500000000000000000000000000570969590000000000000000000067950000000000000000000000000000579773080000000000000000000067937500000000000000000000000000603445440000000000000000000067925000000000000000000000000000595903210000000000000000000067912500000000000000000000000000571148100000000000000000000067900000000000000000000000000000593093370000000000000000000067887500000000000000000000000000624744280000000000000000000067875000000000000000000000000000605517540000000000000000000067862500000000000000000000000000639510040000000000000000000067850000000000000000000000000000638292500000000000000000000067837500000000000000000000000000630341710000000000000000000067825000000000000000000000000000578167440000000000000000000067812500000000000000000000000000567618880000000000000000000067800000000000000000000000000000564099370000000000000000000067787500000000000000000000000000573859790000000000000000000067775000000000000000000000000000642602260000000000000000000067762500000000000000000000000000652800800000000000000000000067750000000000000000000000000000619634650000000000000000000067737500000000000000000000000000611400260000000000000000000067725000000000000000000000000000639717160000000000000000000067712500000000000000000000000000669728010000000000000000000067700000000000000000000000000000701497950000000000000000000067687500000000000000000000000000681837260000000000000000000067675000000000000000000000000000642358560000000000000000000067662500000000000000000000000000608519840000000000000000000067650000000000000000000000000000605603850000000000000000000067637500000000000000000000000000640989370000000000000000000067625000000000000000000000000000637397750000000000000000000067612500000000000000000000000000638059480000000000000000000067600000000000000000000000000000639570930000000000000000000067587500000000000000000000000000634998660000000000000000000067575000000000000000000000000000622285810000000000000000000067562500000000000000000000000000596212760000000000000000000067550000000000000000000000000000670191940000000000000000000067537500000000000000000000000000669583490000000000000000000067525000000000000000000000000000650596690000000000000000000067512500000000000000000000000000614241780000000000000000000067500000000000000000000000000000620394910000000000000000000067487500000000000000000000000000622003410000000000000000000067475000000000000000000000000000549143100000000000000000000067462500000000000000000000000000594002710000000000000000000067450000000000000000000000000000619570350000000000000000000067437500000000000000000000000000621009990000000000000000000067425000000000000000000000000000645868370000000000000000000067412500000000000000000000000000627320860000000000000000000067400000000000000000000,
    536981140000000000000000000068987500000000000000000000000000617677150000000000000000000068975000000000000000000000000000648793030000000000000000000068962500000000000000000000000000616215890000000000000000000068950000000000000000000000000000593726110000000000000000000068937500000000000000000000000000593536270000000000000000000068925000000000000000000000000000604238640000000000000000000068912500000000000000000000000000617984800000000000000000000068900000000000000000000000000000589338350000000000000000000068887500000000000000000000000000590867300000000000000000000068875000000000000000000000000000632602240000000000000000000068862500000000000000000000000000629195180000000000000000000068850000000000000000000000000000601653400000000000000000000068837500000000000000000000000000618399880000000000000000000068825000000000000000000000000000613779860000000000000000000068812500000000000000000000000000546111540000000000000000000068800000000000000000000000000000567620140000000000000000000068787500000000000000000000000000624604620000000000000000000068775000000000000000000000000000654772600000000000000000000068762500000000000000000000000000679950990000000000000000000068750000000000000000000000000000654687270000000000000000000068737500000000000000000000000000638088770000000000000000000068725000000000000000000000000000620943510000000000000000000068712500000000000000000000000000662522740000000000000000000068700000000000000000000000000000678262750000000000000000000068687500000000000000000000000000679132330000000000000000000068675000000000000000000000000000670703980000000000000000000068662500000000000000000000000000730514540000000000000000000068650000000000000000000000000000713156970000000000000000000068637500000000000000000000000000742718330000000000000000000068625000000000000000000000000000683089570000000000000000000068612500000000000000000000000000664412100000000000000000000068600000000000000000000000000000683943530000000000000000000068587500000000000000000000000000706021420000000000000000000068575000000000000000000000000000674611100000000000000000000068562500000000000000000000000000650741690000000000000000000068550000000000000000000000000000638606540000000000000000000068537500000000000000000000000000624594150000000000000000000068525000000000000000000000000000611329050000000000000000000068512500000000000000000000000000606346310000000000000000000068500000000000000000000000000000653946060000000000000000000068487500000000000000000000000000661762480000000000000000000068475000000000000000000000000000626980910000000000000000000068462500000000000000000000000000656080660000000000000000000068450000000000000000000000000000691955150000000000000000000068437500000000000000000000000000625120460000000000000000000068425000000000000000000000000000577853750000000000000000000068412500000000000000000000000000617001650000000000000000000068400000000000000000000000000000631630150000000000000000000068387500000000000000000000000000625054740000000000000000000068375000000000000000000000000000554079090000000000000000000068362500000000000000000000000000607630630000000000000000000068350000000000000000000000000000633556570000000000000000000068337500000000000000000000000000629716090000000000000000000068325000000000000000000000000000580588390000000000000000000068312500000000000000000000000000580522700000000000000000000068300000000000000000000000000000625216250000000000000000000068287500000000000000000000000000662129220000000000000000000068275000000000000000000000000000634747500000000000000000000068262500000000000000000000000000621070690000000000000000000068250000000000000000000000000000618628010000000000000000000068237500000000000000000000000000648906380000000000000000000068225000000000000000000000000000615937730000000000000000000068212500000000000000000000000000648678980000000000000000000068200000000000000000000,
    604565260000000000000000000069787500000000000000000000000000594068410000000000000000000069775000000000000000000000000000589853070000000000000000000069762500000000000000000000000000586201180000000000000000000069750000000000000000000000000000609081090000000000000000000069737500000000000000000000000000634710530000000000000000000069725000000000000000000000000000615160360000000000000000000069712500000000000000000000000000653095490000000000000000000069700000000000000000000000000000654908500000000000000000000069687500000000000000000000000000652213960000000000000000000069675000000000000000000000000000637819130000000000000000000069662500000000000000000000000000617824600000000000000000000069650000000000000000000000000000628714800000000000000000000069637500000000000000000000000000669030970000000000000000000069625000000000000000000000000000612587790000000000000000000069612500000000000000000000000000555696530000000000000000000069600000000000000000000000000000604087800000000000000000000069587500000000000000000000000000631907090000000000000000000069575000000000000000000000000000652411020000000000000000000069562500000000000000000000000000599682730000000000000000000069550000000000000000000000000000584065600000000000000000000069537500000000000000000000000000587739140000000000000000000069525000000000000000000000000000627055560000000000000000000069512500000000000000000000000000617625740000000000000000000069500000000000000000000000000000644930140000000000000000000069487500000000000000000000000000639763390000000000000000000069475000000000000000000000000000602218680000000000000000000069462500000000000000000000000000637575920000000000000000000069450000000000000000000000000000625444810000000000000000000069437500000000000000000000000000628667230000000000000000000069425000000000000000000000000000639211100000000000000000000069412500000000000000000000000000587454750000000000000000000069400000000000000000000000000000607389110000000000000000000069387500000000000000000000000000589495160000000000000000000069375000000000000000000000000000588744380000000000000000000069362500000000000000000000000000568035720000000000000000000069350000000000000000000000000000578085870000000000000000000069337500000000000000000000000000601749910000000000000000000069325000000000000000000000000000630145310000000000000000000069312500000000000000000000000000597805920000000000000000000069300000000000000000000000000000546614840000000000000000000069287500000000000000000000000000571864870000000000000000000069275000000000000000000000000000612880810000000000000000000069262500000000000000000000000000678054450000000000000000000069250000000000000000000000000000654782260000000000000000000069237500000000000000000000000000644637100000000000000000000069225000000000000000000000000000651737250000000000000000000069212500000000000000000000000000600364110000000000000000000069200000000000000000000000000000620073380000000000000000000069187500000000000000000000000000563015150000000000000000000069175000000000000000000000000000610517580000000000000000000069162500000000000000000000000000637607600000000000000000000069150000000000000000000000000000634299030000000000000000000069137500000000000000000000000000632118280000000000000000000069125000000000000000000000000000613855420000000000000000000069112500000000000000000000000000627566400000000000000000000069100000000000000000000000000000656164520000000000000000000069087500000000000000000000000000614806300000000000000000000069075000000000000000000000000000610532480000000000000000000069062500000000000000000000000000601219350000000000000000000069050000000000000000000000000000579449990000000000000000000069037500000000000000000000000000566880220000000000000000000069025000000000000000000000000000606861070000000000000000000069012500000000000000000000000000576018960000000000000000000069000000000000000000000,
    637913570000000000000000000070587500000000000000000000000000602697260000000000000000000070575000000000000000000000000000584291840000000000000000000070562500000000000000000000000000579357030000000000000000000070550000000000000000000000000000587490680000000000000000000070537500000000000000000000000000627039130000000000000000000070525000000000000000000000000000631926790000000000000000000070512500000000000000000000000000612891500000000000000000000070500000000000000000000000000000692092730000000000000000000070487500000000000000000000000000681721890000000000000000000070475000000000000000000000000000685628120000000000000000000070462500000000000000000000000000677042410000000000000000000070450000000000000000000000000000689401800000000000000000000070437500000000000000000000000000661365600000000000000000000070425000000000000000000000000000593327720000000000000000000070412500000000000000000000000000578417640000000000000000000070400000000000000000000000000000608655120000000000000000000070387500000000000000000000000000645777350000000000000000000070375000000000000000000000000000660596040000000000000000000070362500000000000000000000000000600859400000000000000000000070350000000000000000000000000000617882430000000000000000000070337500000000000000000000000000620135970000000000000000000070325000000000000000000000000000644128340000000000000000000070312500000000000000000000000000659868480000000000000000000070300000000000000000000000000000701574180000000000000000000070287500000000000000000000000000644038430000000000000000000070275000000000000000000000000000635018180000000000000000000070262500000000000000000000000000643154530000000000000000000070250000000000000000000000000000635976940000000000000000000070237500000000000000000000000000628356510000000000000000000070225000000000000000000000000000634651040000000000000000000070212500000000000000000000000000640052600000000000000000000070200000000000000000000000000000618156900000000000000000000070187500000000000000000000000000620690960000000000000000000070175000000000000000000000000000704555820000000000000000000070162500000000000000000000000000655606270000000000000000000070150000000000000000000000000000608297040000000000000000000070137500000000000000000000000000609357790000000000000000000070125000000000000000000000000000610428520000000000000000000070112500000000000000000000000000600969450000000000000000000070100000000000000000000000000000561755580000000000000000000070087500000000000000000000000000604692410000000000000000000070075000000000000000000000000000622479420000000000000000000070062500000000000000000000000000612748710000000000000000000070050000000000000000000000000000654487170000000000000000000070037500000000000000000000000000646699200000000000000000000070025000000000000000000000000000604439940000000000000000000070012500000000000000000000000000586190310000000000000000000070000000000000000000000000000000622737240000000000000000000069987500000000000000000000000000624900090000000000000000000069975000000000000000000000000000596568540000000000000000000069962500000000000000000000000000615093580000000000000000000069950000000000000000000000000000643225310000000000000000000069937500000000000000000000000000630176090000000000000000000069925000000000000000000000000000642798580000000000000000000069912500000000000000000000000000606217910000000000000000000069900000000000000000000000000000610635060000000000000000000069887500000000000000000000000000611102100000000000000000000069875000000000000000000000000000696127770000000000000000000069862500000000000000000000000000687037160000000000000000000069850000000000000000000000000000642476040000000000000000000069837500000000000000000000000000597405870000000000000000000069825000000000000000000000000000612915510000000000000000000069812500000000000000000000000000606182960000000000000000000069800000000000000000000,
    622122240000000000000000000071387500000000000000000000000000615660950000000000000000000071375000000000000000000000000000592586830000000000000000000071362500000000000000000000000000570743920000000000000000000071350000000000000000000000000000586777130000000000000000000071337500000000000000000000000000590354420000000000000000000071325000000000000000000000000000584553070000000000000000000071312500000000000000000000000000639815320000000000000000000071300000000000000000000000000000623845880000000000000000000071287500000000000000000000000000596968980000000000000000000071275000000000000000000000000000640201720000000000000000000071262500000000000000000000000000654303080000000000000000000071250000000000000000000000000000653160820000000000000000000071237500000000000000000000000000644786990000000000000000000071225000000000000000000000000000643847600000000000000000000071212500000000000000000000000000645960740000000000000000000071200000000000000000000000000000686537470000000000000000000071187500000000000000000000000000669379550000000000000000000071175000000000000000000000000000669617080000000000000000000071162500000000000000000000000000635599360000000000000000000071150000000000000000000000000000616789300000000000000000000071137500000000000000000000000000607855940000000000000000000071125000000000000000000000000000583352290000000000000000000071112500000000000000000000000000605907530000000000000000000071100000000000000000000000000000603956450000000000000000000071087500000000000000000000000000655661440000000000000000000071075000000000000000000000000000644682490000000000000000000071062500000000000000000000000000677364030000000000000000000071050000000000000000000000000000613621470000000000000000000071037500000000000000000000000000597401030000000000000000000071025000000000000000000000000000703137770000000000000000000071012500000000000000000000000000709011720000000000000000000071000000000000000000000000000000672916290000000000000000000070987500000000000000000000000000599866760000000000000000000070975000000000000000000000000000627967750000000000000000000070962500000000000000000000000000644875140000000000000000000070950000000000000000000000000000628949010000000000000000000070937500000000000000000000000000642726530000000000000000000070925000000000000000000000000000592610770000000000000000000070912500000000000000000000000000633158720000000000000000000070900000000000000000000000000000591682120000000000000000000070887500000000000000000000000000638141430000000000000000000070875000000000000000000000000000618816170000000000000000000070862500000000000000000000000000586921330000000000000000000070850000000000000000000000000000627539640000000000000000000070837500000000000000000000000000592049750000000000000000000070825000000000000000000000000000651708920000000000000000000070812500000000000000000000000000604754630000000000000000000070800000000000000000000000000000586735560000000000000000000070787500000000000000000000000000632312120000000000000000000070775000000000000000000000000000612618360000000000000000000070762500000000000000000000000000562034510000000000000000000070750000000000000000000000000000619468060000000000000000000070737500000000000000000000000000614265110000000000000000000070725000000000000000000000000000620085170000000000000000000070712500000000000000000000000000595521200000000000000000000070700000000000000000000000000000615847780000000000000000000070687500000000000000000000000000624506710000000000000000000070675000000000000000000000000000630804240000000000000000000070662500000000000000000000000000631360630000000000000000000070650000000000000000000000000000602499310000000000000000000070637500000000000000000000000000585546690000000000000000000070625000000000000000000000000000622700440000000000000000000070612500000000000000000000000000646131230000000000000000000070600000000000000000000,
    608573080000000000000000000072187500000000000000000000000000677872110000000000000000000072175000000000000000000000000000689270950000000000000000000072162500000000000000000000000000686503450000000000000000000072150000000000000000000000000000617279470000000000000000000072137500000000000000000000000000629044950000000000000000000072125000000000000000000000000000649306280000000000000000000072112500000000000000000000000000663744190000000000000000000072100000000000000000000000000000622617120000000000000000000072087500000000000000000000000000599773500000000000000000000072075000000000000000000000000000620614800000000000000000000072062500000000000000000000000000674698940000000000000000000072050000000000000000000000000000621570680000000000000000000072037500000000000000000000000000568516190000000000000000000072025000000000000000000000000000662530700000000000000000000072012500000000000000000000000000717378400000000000000000000072000000000000000000000000000000744365180000000000000000000071987500000000000000000000000000688189600000000000000000000071975000000000000000000000000000636637170000000000000000000071962500000000000000000000000000687553410000000000000000000071950000000000000000000000000000638016500000000000000000000071937500000000000000000000000000614460220000000000000000000071925000000000000000000000000000677530080000000000000000000071912500000000000000000000000000605695660000000000000000000071900000000000000000000000000000609213470000000000000000000071887500000000000000000000000000654963220000000000000000000071875000000000000000000000000000644344950000000000000000000071862500000000000000000000000000608523030000000000000000000071850000000000000000000000000000581355730000000000000000000071837500000000000000000000000000583015620000000000000000000071825000000000000000000000000000625417500000000000000000000071812500000000000000000000000000620167260000000000000000000071800000000000000000000000000000573225470000000000000000000071787500000000000000000000000000623223210000000000000000000071775000000000000000000000000000693173820000000000000000000071762500000000000000000000000000632950080000000000000000000071750000000000000000000000000000682933590000000000000000000071737500000000000000000000000000696740320000000000000000000071725000000000000000000000000000643176650000000000000000000071712500000000000000000000000000637454760000000000000000000071700000000000000000000000000000606536580000000000000000000071687500000000000000000000000000591221710000000000000000000071675000000000000000000000000000615511720000000000000000000071662500000000000000000000000000663315380000000000000000000071650000000000000000000000000000659307500000000000000000000071637500000000000000000000000000609124940000000000000000000071625000000000000000000000000000585665350000000000000000000071612500000000000000000000000000599458730000000000000000000071600000000000000000000000000000650723790000000000000000000071587500000000000000000000000000660077740000000000000000000071575000000000000000000000000000675856440000000000000000000071562500000000000000000000000000682463520000000000000000000071550000000000000000000000000000670984760000000000000000000071537500000000000000000000000000663623340000000000000000000071525000000000000000000000000000632542760000000000000000000071512500000000000000000000000000689642640000000000000000000071500000000000000000000000000000683958280000000000000000000071487500000000000000000000000000617943490000000000000000000071475000000000000000000000000000594389670000000000000000000071462500000000000000000000000000621191790000000000000000000071450000000000000000000000000000606435460000000000000000000071437500000000000000000000000000585652420000000000000000000071425000000000000000000000000000613100950000000000000000000071412500000000000000000000000000625695400000000000000000000071400000000000000000000,
    698336220000000000000000000072987500000000000000000000000000655781670000000000000000000072975000000000000000000000000000668937090000000000000000000072962500000000000000000000000000665321150000000000000000000072950000000000000000000000000000638610550000000000000000000072937500000000000000000000000000647487900000000000000000000072925000000000000000000000000000663428230000000000000000000072912500000000000000000000000000627010710000000000000000000072900000000000000000000000000000599210740000000000000000000072887500000000000000000000000000654879730000000000000000000072875000000000000000000000000000614295270000000000000000000072862500000000000000000000000000577290480000000000000000000072850000000000000000000000000000623030060000000000000000000072837500000000000000000000000000621275440000000000000000000072825000000000000000000000000000610452970000000000000000000072812500000000000000000000000000664548000000000000000000000072800000000000000000000000000000694550230000000000000000000072787500000000000000000000000000684247180000000000000000000072775000000000000000000000000000667073270000000000000000000072762500000000000000000000000000633587050000000000000000000072750000000000000000000000000000632425600000000000000000000072737500000000000000000000000000670028180000000000000000000072725000000000000000000000000000618168830000000000000000000072712500000000000000000000000000617617890000000000000000000072700000000000000000000000000000636796060000000000000000000072687500000000000000000000000000584656200000000000000000000072675000000000000000000000000000616368300000000000000000000072662500000000000000000000000000603072060000000000000000000072650000000000000000000000000000605638930000000000000000000072637500000000000000000000000000609723440000000000000000000072625000000000000000000000000000638706430000000000000000000072612500000000000000000000000000657925270000000000000000000072600000000000000000000000000000659945760000000000000000000072587500000000000000000000000000646593890000000000000000000072575000000000000000000000000000669039250000000000000000000072562500000000000000000000000000668832540000000000000000000072550000000000000000000000000000631083040000000000000000000072537500000000000000000000000000607958940000000000000000000072525000000000000000000000000000613581490000000000000000000072512500000000000000000000000000621559990000000000000000000072500000000000000000000000000000639825120000000000000000000072487500000000000000000000000000648131940000000000000000000072475000000000000000000000000000667356070000000000000000000072462500000000000000000000000000623024870000000000000000000072450000000000000000000000000000625788300000000000000000000072437500000000000000000000000000612006630000000000000000000072425000000000000000000000000000579304940000000000000000000072412500000000000000000000000000679277250000000000000000000072400000000000000000000000000000681092330000000000000000000072387500000000000000000000000000657171330000000000000000000072375000000000000000000000000000675311700000000000000000000072362500000000000000000000000000693399260000000000000000000072350000000000000000000000000000633085870000000000000000000072337500000000000000000000000000654560480000000000000000000072325000000000000000000000000000672959220000000000000000000072312500000000000000000000000000668770960000000000000000000072300000000000000000000000000000629680150000000000000000000072287500000000000000000000000000652941080000000000000000000072275000000000000000000000000000643219460000000000000000000072262500000000000000000000000000625334230000000000000000000072250000000000000000000000000000631485150000000000000000000072237500000000000000000000000000637238820000000000000000000072225000000000000000000000000000658366780000000000000000000072212500000000000000000000000000679367030000000000000000000072200000000000000000000,
    676676630000000000000000000073787500000000000000000000000000652601960000000000000000000073775000000000000000000000000000662296730000000000000000000073762500000000000000000000000000668200550000000000000000000073750000000000000000000000000000657259940000000000000000000073737500000000000000000000000000627829840000000000000000000073725000000000000000000000000000673355820000000000000000000073712500000000000000000000000000643944090000000000000000000073700000000000000000000000000000663479200000000000000000000073687500000000000000000000000000647691950000000000000000000073675000000000000000000000000000649866580000000000000000000073662500000000000000000000000000626085540000000000000000000073650000000000000000000000000000648873910000000000000000000073637500000000000000000000000000664570110000000000000000000073625000000000000000000000000000688756290000000000000000000073612500000000000000000000000000680732630000000000000000000073600000000000000000000000000000642473840000000000000000000073587500000000000000000000000000641741990000000000000000000073575000000000000000000000000000644516410000000000000000000073562500000000000000000000000000609587530000000000000000000073550000000000000000000000000000638577090000000000000000000073537500000000000000000000000000652603100000000000000000000073525000000000000000000000000000642523490000000000000000000073512500000000000000000000000000628136790000000000000000000073500000000000000000000000000000640780700000000000000000000073487500000000000000000000000000629463450000000000000000000073475000000000000000000000000000682438340000000000000000000073462500000000000000000000000000669004340000000000000000000073450000000000000000000000000000695502050000000000000000000073437500000000000000000000000000695166450000000000000000000073425000000000000000000000000000650647650000000000000000000073412500000000000000000000000000619261350000000000000000000073400000000000000000000000000000623247120000000000000000000073387500000000000000000000000000627408220000000000000000000073375000000000000000000000000000654415650000000000000000000073362500000000000000000000000000649749100000000000000000000073350000000000000000000000000000605294840000000000000000000073337500000000000000000000000000671538210000000000000000000073325000000000000000000000000000672628110000000000000000000073312500000000000000000000000000644349400000000000000000000073300000000000000000000000000000671266880000000000000000000073287500000000000000000000000000677257240000000000000000000073275000000000000000000000000000645263760000000000000000000073262500000000000000000000000000616534710000000000000000000073250000000000000000000000000000605801220000000000000000000073237500000000000000000000000000641942900000000000000000000073225000000000000000000000000000689172380000000000000000000073212500000000000000000000000000676486800000000000000000000073200000000000000000000000000000637641540000000000000000000073187500000000000000000000000000635186010000000000000000000073175000000000000000000000000000634607030000000000000000000073162500000000000000000000000000642570870000000000000000000073150000000000000000000000000000657728820000000000000000000073137500000000000000000000000000708278110000000000000000000073125000000000000000000000000000667484190000000000000000000073112500000000000000000000000000629221480000000000000000000073100000000000000000000000000000676859920000000000000000000073087500000000000000000000000000654529410000000000000000000073075000000000000000000000000000633251830000000000000000000073062500000000000000000000000000636098510000000000000000000073050000000000000000000000000000640639920000000000000000000073037500000000000000000000000000620630000000000000000000000073025000000000000000000000000000671879340000000000000000000073012500000000000000000000000000665822600000000000000000000073000000000000000000000,
    666747120000000000000000000074587500000000000000000000000000651192550000000000000000000074575000000000000000000000000000646255690000000000000000000074562500000000000000000000000000675348540000000000000000000074550000000000000000000000000000737722280000000000000000000074537500000000000000000000000000700123910000000000000000000074525000000000000000000000000000649813830000000000000000000074512500000000000000000000000000656205250000000000000000000074500000000000000000000000000000608695920000000000000000000074487500000000000000000000000000611927970000000000000000000074475000000000000000000000000000657984960000000000000000000074462500000000000000000000000000651249500000000000000000000074450000000000000000000000000000663490060000000000000000000074437500000000000000000000000000661037060000000000000000000074425000000000000000000000000000625151530000000000000000000074412500000000000000000000000000619913440000000000000000000074400000000000000000000000000000664347500000000000000000000074387500000000000000000000000000617331560000000000000000000074375000000000000000000000000000653199100000000000000000000074362500000000000000000000000000705976470000000000000000000074350000000000000000000000000000625499170000000000000000000074337500000000000000000000000000643482750000000000000000000074325000000000000000000000000000623648530000000000000000000074312500000000000000000000000000597319870000000000000000000074300000000000000000000000000000683976120000000000000000000074287500000000000000000000000000625732820000000000000000000074275000000000000000000000000000639339480000000000000000000074262500000000000000000000000000661714270000000000000000000074250000000000000000000000000000590379730000000000000000000074237500000000000000000000000000627004040000000000000000000074225000000000000000000000000000681843630000000000000000000074212500000000000000000000000000686595470000000000000000000074200000000000000000000000000000663264240000000000000000000074187500000000000000000000000000675399870000000000000000000074175000000000000000000000000000666810550000000000000000000074162500000000000000000000000000609028010000000000000000000074150000000000000000000000000000606322270000000000000000000074137500000000000000000000000000664526680000000000000000000074125000000000000000000000000000643608680000000000000000000074112500000000000000000000000000644526590000000000000000000074100000000000000000000000000000639653400000000000000000000074087500000000000000000000000000632959990000000000000000000074075000000000000000000000000000644330390000000000000000000074062500000000000000000000000000598436340000000000000000000074050000000000000000000000000000566715800000000000000000000074037500000000000000000000000000660763910000000000000000000074025000000000000000000000000000700320620000000000000000000074012500000000000000000000000000633258270000000000000000000074000000000000000000000000000000657730920000000000000000000073987500000000000000000000000000683444800000000000000000000073975000000000000000000000000000669174170000000000000000000073962500000000000000000000000000640620890000000000000000000073950000000000000000000000000000627561620000000000000000000073937500000000000000000000000000633143120000000000000000000073925000000000000000000000000000643088860000000000000000000073912500000000000000000000000000642899790000000000000000000073900000000000000000000000000000635094020000000000000000000073887500000000000000000000000000616249550000000000000000000073875000000000000000000000000000653349760000000000000000000073862500000000000000000000000000638662810000000000000000000073850000000000000000000000000000645462530000000000000000000073837500000000000000000000000000648479490000000000000000000073825000000000000000000000000000649352010000000000000000000073812500000000000000000000000000694671290000000000000000000073800000000000000000000,
    626660770000000000000000000075387500000000000000000000000000642816470000000000000000000075375000000000000000000000000000690877440000000000000000000075362500000000000000000000000000620274350000000000000000000075350000000000000000000000000000598280320000000000000000000075337500000000000000000000000000628954860000000000000000000075325000000000000000000000000000639648810000000000000000000075312500000000000000000000000000626622750000000000000000000075300000000000000000000000000000682234810000000000000000000075287500000000000000000000000000692751400000000000000000000075275000000000000000000000000000637277650000000000000000000075262500000000000000000000000000632612850000000000000000000075250000000000000000000000000000653786770000000000000000000075237500000000000000000000000000654031300000000000000000000075225000000000000000000000000000648613760000000000000000000075212500000000000000000000000000680935960000000000000000000075200000000000000000000000000000729051790000000000000000000075187500000000000000000000000000639847370000000000000000000075175000000000000000000000000000630046140000000000000000000075162500000000000000000000000000665580540000000000000000000075150000000000000000000000000000656938060000000000000000000075137500000000000000000000000000656302010000000000000000000075125000000000000000000000000000712478880000000000000000000075112500000000000000000000000000714749320000000000000000000075100000000000000000000000000000702686500000000000000000000075087500000000000000000000000000733488700000000000000000000075075000000000000000000000000000696049190000000000000000000075062500000000000000000000000000596655460000000000000000000075050000000000000000000000000000578200150000000000000000000075037500000000000000000000000000678088640000000000000000000075025000000000000000000000000000632459840000000000000000000075012500000000000000000000000000656567590000000000000000000075000000000000000000000000000000680923340000000000000000000074987500000000000000000000000000656894420000000000000000000074975000000000000000000000000000697973160000000000000000000074962500000000000000000000000000688143890000000000000000000074950000000000000000000000000000680862420000000000000000000074937500000000000000000000000000649495220000000000000000000074925000000000000000000000000000629876040000000000000000000074912500000000000000000000000000626455560000000000000000000074900000000000000000000000000000624639840000000000000000000074887500000000000000000000000000652256160000000000000000000074875000000000000000000000000000704385460000000000000000000074862500000000000000000000000000711347020000000000000000000074850000000000000000000000000000690676490000000000000000000074837500000000000000000000000000681451950000000000000000000074825000000000000000000000000000628695080000000000000000000074812500000000000000000000000000679529730000000000000000000074800000000000000000000000000000695521810000000000000000000074787500000000000000000000000000662144890000000000000000000074775000000000000000000000000000653569090000000000000000000074762500000000000000000000000000644246740000000000000000000074750000000000000000000000000000630030660000000000000000000074737500000000000000000000000000641617300000000000000000000074725000000000000000000000000000609329170000000000000000000074712500000000000000000000000000644895950000000000000000000074700000000000000000000000000000597255520000000000000000000074687500000000000000000000000000619948290000000000000000000074675000000000000000000000000000662486940000000000000000000074662500000000000000000000000000672887370000000000000000000074650000000000000000000000000000653080590000000000000000000074637500000000000000000000000000662314530000000000000000000074625000000000000000000000000000662183360000000000000000000074612500000000000000000000000000665245390000000000000000000074600000000000000000000,
    643375180000000000000000000076187500000000000000000000000000698530630000000000000000000076175000000000000000000000000000676277320000000000000000000076162500000000000000000000000000654773000000000000000000000076150000000000000000000000000000680927620000000000000000000076137500000000000000000000000000668206980000000000000000000076125000000000000000000000000000625329620000000000000000000076112500000000000000000000000000666231280000000000000000000076100000000000000000000000000000680265380000000000000000000076087500000000000000000000000000678458550000000000000000000076075000000000000000000000000000635655110000000000000000000076062500000000000000000000000000635461460000000000000000000076050000000000000000000000000000662317940000000000000000000076037500000000000000000000000000642707660000000000000000000076025000000000000000000000000000661757830000000000000000000076012500000000000000000000000000631079590000000000000000000076000000000000000000000000000000628007750000000000000000000075987500000000000000000000000000652579780000000000000000000075975000000000000000000000000000638402590000000000000000000075962500000000000000000000000000649795350000000000000000000075950000000000000000000000000000607896930000000000000000000075937500000000000000000000000000618035030000000000000000000075925000000000000000000000000000616065870000000000000000000075912500000000000000000000000000630573230000000000000000000075900000000000000000000000000000676038700000000000000000000075887500000000000000000000000000694715380000000000000000000075875000000000000000000000000000673648100000000000000000000075862500000000000000000000000000682057850000000000000000000075850000000000000000000000000000652215820000000000000000000075837500000000000000000000000000662553410000000000000000000075825000000000000000000000000000644208230000000000000000000075812500000000000000000000000000657065930000000000000000000075800000000000000000000000000000677806780000000000000000000075787500000000000000000000000000633716350000000000000000000075775000000000000000000000000000660714670000000000000000000075762500000000000000000000000000704139110000000000000000000075750000000000000000000000000000695399570000000000000000000075737500000000000000000000000000634347270000000000000000000075725000000000000000000000000000600793530000000000000000000075712500000000000000000000000000655049100000000000000000000075700000000000000000000000000000644559250000000000000000000075687500000000000000000000000000636711130000000000000000000075675000000000000000000000000000596392020000000000000000000075662500000000000000000000000000673576910000000000000000000075650000000000000000000000000000648558320000000000000000000075637500000000000000000000000000642864540000000000000000000075625000000000000000000000000000658331690000000000000000000075612500000000000000000000000000671548940000000000000000000075600000000000000000000000000000605640550000000000000000000075587500000000000000000000000000625463240000000000000000000075575000000000000000000000000000670505190000000000000000000075562500000000000000000000000000658725300000000000000000000075550000000000000000000000000000669040550000000000000000000075537500000000000000000000000000649920590000000000000000000075525000000000000000000000000000593168680000000000000000000075512500000000000000000000000000603096680000000000000000000075500000000000000000000000000000660971540000000000000000000075487500000000000000000000000000663681200000000000000000000075475000000000000000000000000000650784340000000000000000000075462500000000000000000000000000625560350000000000000000000075450000000000000000000000000000606114490000000000000000000075437500000000000000000000000000636494020000000000000000000075425000000000000000000000000000654253820000000000000000000075412500000000000000000000000000646027220000000000000000000075400000000000000000000,
    610163400000000000000000000076987500000000000000000000000000657091680000000000000000000076975000000000000000000000000000681116140000000000000000000076962500000000000000000000000000618934340000000000000000000076950000000000000000000000000000609795230000000000000000000076937500000000000000000000000000602446680000000000000000000076925000000000000000000000000000646858610000000000000000000076912500000000000000000000000000622048430000000000000000000076900000000000000000000000000000733671730000000000000000000076887500000000000000000000000000726143780000000000000000000076875000000000000000000000000000652328590000000000000000000076862500000000000000000000000000741309160000000000000000000076850000000000000000000000000000694338480000000000000000000076837500000000000000000000000000671848950000000000000000000076825000000000000000000000000000724517460000000000000000000076812500000000000000000000000000654603910000000000000000000076800000000000000000000000000000599434800000000000000000000076787500000000000000000000000000675794070000000000000000000076775000000000000000000000000000713246010000000000000000000076762500000000000000000000000000702807690000000000000000000076750000000000000000000000000000746980020000000000000000000076737500000000000000000000000000733751450000000000000000000076725000000000000000000000000000705197040000000000000000000076712500000000000000000000000000649139400000000000000000000076700000000000000000000000000000638095770000000000000000000076687500000000000000000000000000663772740000000000000000000076675000000000000000000000000000647627990000000000000000000076662500000000000000000000000000606932300000000000000000000076650000000000000000000000000000629655170000000000000000000076637500000000000000000000000000677360830000000000000000000076625000000000000000000000000000674156210000000000000000000076612500000000000000000000000000666579210000000000000000000076600000000000000000000000000000685959430000000000000000000076587500000000000000000000000000677513480000000000000000000076575000000000000000000000000000654054210000000000000000000076562500000000000000000000000000643354280000000000000000000076550000000000000000000000000000674293520000000000000000000076537500000000000000000000000000669282820000000000000000000076525000000000000000000000000000633338130000000000000000000076512500000000000000000000000000687023110000000000000000000076500000000000000000000000000000666657180000000000000000000076487500000000000000000000000000635089660000000000000000000076475000000000000000000000000000657371610000000000000000000076462500000000000000000000000000643695820000000000000000000076450000000000000000000000000000657095890000000000000000000076437500000000000000000000000000644373770000000000000000000076425000000000000000000000000000617823660000000000000000000076412500000000000000000000000000651068200000000000000000000076400000000000000000000000000000674164310000000000000000000076387500000000000000000000000000642643620000000000000000000076375000000000000000000000000000650878200000000000000000000076362500000000000000000000000000655533910000000000000000000076350000000000000000000000000000686459520000000000000000000076337500000000000000000000000000725540960000000000000000000076325000000000000000000000000000721829690000000000000000000076312500000000000000000000000000677121280000000000000000000076300000000000000000000000000000663256370000000000000000000076287500000000000000000000000000674901300000000000000000000076275000000000000000000000000000714516180000000000000000000076262500000000000000000000000000689293470000000000000000000076250000000000000000000000000000674446680000000000000000000076237500000000000000000000000000667267710000000000000000000076225000000000000000000000000000659610520000000000000000000076212500000000000000000000000000635309210000000000000000000076200000000000000000000,
    705080250000000000000000000077787500000000000000000000000000691532250000000000000000000077775000000000000000000000000000693861670000000000000000000077762500000000000000000000000000680165400000000000000000000077750000000000000000000000000000669291270000000000000000000077737500000000000000000000000000686291820000000000000000000077725000000000000000000000000000659195350000000000000000000077712500000000000000000000000000648217050000000000000000000077700000000000000000000000000000673128470000000000000000000077687500000000000000000000000000609561680000000000000000000077675000000000000000000000000000691209330000000000000000000077662500000000000000000000000000681234860000000000000000000077650000000000000000000000000000632131890000000000000000000077637500000000000000000000000000633159320000000000000000000077625000000000000000000000000000622316890000000000000000000077612500000000000000000000000000637113830000000000000000000077600000000000000000000000000000678201360000000000000000000077587500000000000000000000000000667162240000000000000000000077575000000000000000000000000000617671490000000000000000000077562500000000000000000000000000619054890000000000000000000077550000000000000000000000000000614513580000000000000000000077537500000000000000000000000000598207250000000000000000000077525000000000000000000000000000637677740000000000000000000077512500000000000000000000000000714366210000000000000000000077500000000000000000000000000000699986700000000000000000000077487500000000000000000000000000670302690000000000000000000077475000000000000000000000000000717841310000000000000000000077462500000000000000000000000000723674440000000000000000000077450000000000000000000000000000684688550000000000000000000077437500000000000000000000000000631739190000000000000000000077425000000000000000000000000000612172850000000000000000000077412500000000000000000000000000671996540000000000000000000077400000000000000000000000000000675767350000000000000000000077387500000000000000000000000000637964920000000000000000000077375000000000000000000000000000691859290000000000000000000077362500000000000000000000000000726925860000000000000000000077350000000000000000000000000000649579440000000000000000000077337500000000000000000000000000636360510000000000000000000077325000000000000000000000000000676102380000000000000000000077312500000000000000000000000000605775520000000000000000000077300000000000000000000000000000628365810000000000000000000077287500000000000000000000000000636636680000000000000000000077275000000000000000000000000000693409240000000000000000000077262500000000000000000000000000716483240000000000000000000077250000000000000000000000000000690654550000000000000000000077237500000000000000000000000000701304390000000000000000000077225000000000000000000000000000684254280000000000000000000077212500000000000000000000000000671178580000000000000000000077200000000000000000000000000000659249700000000000000000000077187500000000000000000000000000675344300000000000000000000077175000000000000000000000000000688661340000000000000000000077162500000000000000000000000000667494010000000000000000000077150000000000000000000000000000674612370000000000000000000077137500000000000000000000000000743197560000000000000000000077125000000000000000000000000000697278280000000000000000000077112500000000000000000000000000674305720000000000000000000077100000000000000000000000000000663531910000000000000000000077087500000000000000000000000000636678650000000000000000000077075000000000000000000000000000615859540000000000000000000077062500000000000000000000000000657348490000000000000000000077050000000000000000000000000000645549870000000000000000000077037500000000000000000000000000655824140000000000000000000077025000000000000000000000000000688704170000000000000000000077012500000000000000000000000000619490240000000000000000000077000000000000000000000,
    682069480000000000000000000078587500000000000000000000000000695579210000000000000000000078575000000000000000000000000000664561000000000000000000000078562500000000000000000000000000639406030000000000000000000078550000000000000000000000000000650878840000000000000000000078537500000000000000000000000000658354370000000000000000000078525000000000000000000000000000665789400000000000000000000078512500000000000000000000000000651008170000000000000000000078500000000000000000000000000000709824190000000000000000000078487500000000000000000000000000684681470000000000000000000078475000000000000000000000000000673976500000000000000000000078462500000000000000000000000000674086380000000000000000000078450000000000000000000000000000696709750000000000000000000078437500000000000000000000000000688564070000000000000000000078425000000000000000000000000000646286740000000000000000000078412500000000000000000000000000634198940000000000000000000078400000000000000000000000000000660740230000000000000000000078387500000000000000000000000000677719720000000000000000000078375000000000000000000000000000666766300000000000000000000078362500000000000000000000000000634087650000000000000000000078350000000000000000000000000000584203910000000000000000000078337500000000000000000000000000630825530000000000000000000078325000000000000000000000000000615076410000000000000000000078312500000000000000000000000000666774040000000000000000000078300000000000000000000000000000727237350000000000000000000078287500000000000000000000000000687294560000000000000000000078275000000000000000000000000000689054790000000000000000000078262500000000000000000000000000739576670000000000000000000078250000000000000000000000000000717810040000000000000000000078237500000000000000000000000000655335690000000000000000000078225000000000000000000000000000597154070000000000000000000078212500000000000000000000000000627859530000000000000000000078200000000000000000000000000000661115630000000000000000000078187500000000000000000000000000650014350000000000000000000078175000000000000000000000000000643277370000000000000000000078162500000000000000000000000000676606880000000000000000000078150000000000000000000000000000612057480000000000000000000078137500000000000000000000000000621335040000000000000000000078125000000000000000000000000000638437650000000000000000000078112500000000000000000000000000624515140000000000000000000078100000000000000000000000000000649897030000000000000000000078087500000000000000000000000000639059310000000000000000000078075000000000000000000000000000651592980000000000000000000078062500000000000000000000000000693220090000000000000000000078050000000000000000000000000000623766640000000000000000000078037500000000000000000000000000635543430000000000000000000078025000000000000000000000000000680335790000000000000000000078012500000000000000000000000000656328050000000000000000000078000000000000000000000000000000636366360000000000000000000077987500000000000000000000000000600373530000000000000000000077975000000000000000000000000000660115470000000000000000000077962500000000000000000000000000727467820000000000000000000077950000000000000000000000000000719748680000000000000000000077937500000000000000000000000000627077580000000000000000000077925000000000000000000000000000660737120000000000000000000077912500000000000000000000000000690529230000000000000000000077900000000000000000000000000000690090670000000000000000000077887500000000000000000000000000697076790000000000000000000077875000000000000000000000000000664980600000000000000000000077862500000000000000000000000000675758600000000000000000000077850000000000000000000000000000705759480000000000000000000077837500000000000000000000000000730992690000000000000000000077825000000000000000000000000000719643410000000000000000000077812500000000000000000000000000724130350000000000000000000077800000000000000000000,
    692707950000000000000000000079387500000000000000000000000000672405450000000000000000000079375000000000000000000000000000654693410000000000000000000079362500000000000000000000000000662273070000000000000000000079350000000000000000000000000000709291970000000000000000000079337500000000000000000000000000722456540000000000000000000079325000000000000000000000000000703759840000000000000000000079312500000000000000000000000000626812590000000000000000000079300000000000000000000000000000675492800000000000000000000079287500000000000000000000000000665037140000000000000000000079275000000000000000000000000000634472020000000000000000000079262500000000000000000000000000601319490000000000000000000079250000000000000000000000000000651104210000000000000000000079237500000000000000000000000000679875120000000000000000000079225000000000000000000000000000669535550000000000000000000079212500000000000000000000000000697080960000000000000000000079200000000000000000000000000000676862220000000000000000000079187500000000000000000000000000610241380000000000000000000079175000000000000000000000000000619971100000000000000000000079162500000000000000000000000000664334360000000000000000000079150000000000000000000000000000651883550000000000000000000079137500000000000000000000000000619941670000000000000000000079125000000000000000000000000000622345890000000000000000000079112500000000000000000000000000671608580000000000000000000079100000000000000000000000000000681189820000000000000000000079087500000000000000000000000000652953640000000000000000000079075000000000000000000000000000702895480000000000000000000079062500000000000000000000000000672147500000000000000000000079050000000000000000000000000000713588770000000000000000000079037500000000000000000000000000681104330000000000000000000079025000000000000000000000000000655720330000000000000000000079012500000000000000000000000000705189610000000000000000000079000000000000000000000000000000677382790000000000000000000078987500000000000000000000000000630550390000000000000000000078975000000000000000000000000000663440630000000000000000000078962500000000000000000000000000665139560000000000000000000078950000000000000000000000000000677902380000000000000000000078937500000000000000000000000000735422820000000000000000000078925000000000000000000000000000753512280000000000000000000078912500000000000000000000000000695089060000000000000000000078900000000000000000000000000000659234300000000000000000000078887500000000000000000000000000657343030000000000000000000078875000000000000000000000000000688292900000000000000000000078862500000000000000000000000000620597430000000000000000000078850000000000000000000000000000663842280000000000000000000078837500000000000000000000000000639360410000000000000000000078825000000000000000000000000000660575100000000000000000000078812500000000000000000000000000668385530000000000000000000078800000000000000000000000000000660545320000000000000000000078787500000000000000000000000000616250990000000000000000000078775000000000000000000000000000607378400000000000000000000078762500000000000000000000000000599631470000000000000000000078750000000000000000000000000000683844080000000000000000000078737500000000000000000000000000683100860000000000000000000078725000000000000000000000000000657799950000000000000000000078712500000000000000000000000000686024000000000000000000000078700000000000000000000000000000671896960000000000000000000078687500000000000000000000000000656719580000000000000000000078675000000000000000000000000000672339850000000000000000000078662500000000000000000000000000678508340000000000000000000078650000000000000000000000000000760869480000000000000000000078637500000000000000000000000000669113910000000000000000000078625000000000000000000000000000617780000000000000000000000078612500000000000000000000000000616055620000000000000000000078600000000000000000000,
    666426880000000000000000000080187500000000000000000000000000676968730000000000000000000080175000000000000000000000000000736159090000000000000000000080162500000000000000000000000000760888610000000000000000000080150000000000000000000000000000690934440000000000000000000080137500000000000000000000000000694018500000000000000000000080125000000000000000000000000000738183140000000000000000000080112500000000000000000000000000704748830000000000000000000080100000000000000000000000000000729895260000000000000000000080087500000000000000000000000000672043750000000000000000000080075000000000000000000000000000660842050000000000000000000080062500000000000000000000000000681027990000000000000000000080050000000000000000000000000000663196330000000000000000000080037500000000000000000000000000662721370000000000000000000080025000000000000000000000000000739526540000000000000000000080012500000000000000000000000000751583450000000000000000000080000000000000000000000000000000731410680000000000000000000079987500000000000000000000000000673130900000000000000000000079975000000000000000000000000000637384960000000000000000000079962500000000000000000000000000648503880000000000000000000079950000000000000000000000000000669739620000000000000000000079937500000000000000000000000000669982830000000000000000000079925000000000000000000000000000680751620000000000000000000079912500000000000000000000000000647495340000000000000000000079900000000000000000000000000000734974010000000000000000000079887500000000000000000000000000682163900000000000000000000079875000000000000000000000000000628857590000000000000000000079862500000000000000000000000000670500910000000000000000000079850000000000000000000000000000698662550000000000000000000079837500000000000000000000000000708490230000000000000000000079825000000000000000000000000000650282870000000000000000000079812500000000000000000000000000647705650000000000000000000079800000000000000000000000000000689281150000000000000000000079787500000000000000000000000000735325260000000000000000000079775000000000000000000000000000675959570000000000000000000079762500000000000000000000000000721754350000000000000000000079750000000000000000000000000000656664990000000000000000000079737500000000000000000000000000628618080000000000000000000079725000000000000000000000000000627701150000000000000000000079712500000000000000000000000000637318590000000000000000000079700000000000000000000000000000691547710000000000000000000079687500000000000000000000000000676102170000000000000000000079675000000000000000000000000000670444760000000000000000000079662500000000000000000000000000696460420000000000000000000079650000000000000000000000000000683286020000000000000000000079637500000000000000000000000000703510260000000000000000000079625000000000000000000000000000739244280000000000000000000079612500000000000000000000000000712239050000000000000000000079600000000000000000000000000000673482870000000000000000000079587500000000000000000000000000645696440000000000000000000079575000000000000000000000000000680473710000000000000000000079562500000000000000000000000000667143340000000000000000000079550000000000000000000000000000661077740000000000000000000079537500000000000000000000000000685944180000000000000000000079525000000000000000000000000000652899530000000000000000000079512500000000000000000000000000601824750000000000000000000079500000000000000000000000000000638605730000000000000000000079487500000000000000000000000000642736220000000000000000000079475000000000000000000000000000676306380000000000000000000079462500000000000000000000000000693741020000000000000000000079450000000000000000000000000000651582190000000000000000000079437500000000000000000000000000687672170000000000000000000079425000000000000000000000000000696814450000000000000000000079412500000000000000000000000000685793310000000000000000000079400000000000000000000,
    652860510000000000000000000080987500000000000000000000000000635390800000000000000000000080975000000000000000000000000000658708970000000000000000000080962500000000000000000000000000715669130000000000000000000080950000000000000000000000000000654175880000000000000000000080937500000000000000000000000000639958820000000000000000000080925000000000000000000000000000702495900000000000000000000080912500000000000000000000000000734580400000000000000000000080900000000000000000000000000000695913110000000000000000000080887500000000000000000000000000667092130000000000000000000080875000000000000000000000000000670272780000000000000000000080862500000000000000000000000000627973620000000000000000000080850000000000000000000000000000665319480000000000000000000080837500000000000000000000000000702599790000000000000000000080825000000000000000000000000000730239580000000000000000000080812500000000000000000000000000716477310000000000000000000080800000000000000000000000000000687569520000000000000000000080787500000000000000000000000000691382820000000000000000000080775000000000000000000000000000649181630000000000000000000080762500000000000000000000000000703004530000000000000000000080750000000000000000000000000000637949190000000000000000000080737500000000000000000000000000642079360000000000000000000080725000000000000000000000000000655340320000000000000000000080712500000000000000000000000000687060960000000000000000000080700000000000000000000000000000713573330000000000000000000080687500000000000000000000000000681963840000000000000000000080675000000000000000000000000000692377800000000000000000000080662500000000000000000000000000688600290000000000000000000080650000000000000000000000000000704091920000000000000000000080637500000000000000000000000000669995850000000000000000000080625000000000000000000000000000666956620000000000000000000080612500000000000000000000000000682995170000000000000000000080600000000000000000000000000000678754510000000000000000000080587500000000000000000000000000695149300000000000000000000080575000000000000000000000000000630565240000000000000000000080562500000000000000000000000000674543280000000000000000000080550000000000000000000000000000684575600000000000000000000080537500000000000000000000000000622554540000000000000000000080525000000000000000000000000000624458700000000000000000000080512500000000000000000000000000651713430000000000000000000080500000000000000000000000000000700822770000000000000000000080487500000000000000000000000000676439620000000000000000000080475000000000000000000000000000665431550000000000000000000080462500000000000000000000000000666533250000000000000000000080450000000000000000000000000000691009540000000000000000000080437500000000000000000000000000707462080000000000000000000080425000000000000000000000000000685838450000000000000000000080412500000000000000000000000000657298430000000000000000000080400000000000000000000000000000668558130000000000000000000080387500000000000000000000000000651229910000000000000000000080375000000000000000000000000000683319310000000000000000000080362500000000000000000000000000691694420000000000000000000080350000000000000000000000000000703391560000000000000000000080337500000000000000000000000000674991820000000000000000000080325000000000000000000000000000686764920000000000000000000080312500000000000000000000000000680360270000000000000000000080300000000000000000000000000000701343300000000000000000000080287500000000000000000000000000642028150000000000000000000080275000000000000000000000000000648038100000000000000000000080262500000000000000000000000000683039450000000000000000000080250000000000000000000000000000708257850000000000000000000080237500000000000000000000000000727016860000000000000000000080225000000000000000000000000000697361690000000000000000000080212500000000000000000000000000658714210000000000000000000080200000000000000000000,
    713563420000000000000000000081787500000000000000000000000000670943720000000000000000000081775000000000000000000000000000681859880000000000000000000081762500000000000000000000000000654450370000000000000000000081750000000000000000000000000000628372950000000000000000000081737500000000000000000000000000689760660000000000000000000081725000000000000000000000000000664403120000000000000000000081712500000000000000000000000000635619200000000000000000000081700000000000000000000000000000696515170000000000000000000081687500000000000000000000000000708469570000000000000000000081675000000000000000000000000000678840370000000000000000000081662500000000000000000000000000627216970000000000000000000081650000000000000000000000000000625798430000000000000000000081637500000000000000000000000000690096250000000000000000000081625000000000000000000000000000691073290000000000000000000081612500000000000000000000000000711235670000000000000000000081600000000000000000000000000000641794810000000000000000000081587500000000000000000000000000662829160000000000000000000081575000000000000000000000000000691007070000000000000000000081562500000000000000000000000000705050480000000000000000000081550000000000000000000000000000616421710000000000000000000081537500000000000000000000000000620370090000000000000000000081525000000000000000000000000000653456580000000000000000000081512500000000000000000000000000693900780000000000000000000081500000000000000000000000000000689755430000000000000000000081487500000000000000000000000000699853090000000000000000000081475000000000000000000000000000775551800000000000000000000081462500000000000000000000000000770241760000000000000000000081450000000000000000000000000000707407600000000000000000000081437500000000000000000000000000713749750000000000000000000081425000000000000000000000000000737409300000000000000000000081412500000000000000000000000000733117720000000000000000000081400000000000000000000000000000750261470000000000000000000081387500000000000000000000000000751015020000000000000000000081375000000000000000000000000000699120740000000000000000000081362500000000000000000000000000658510170000000000000000000081350000000000000000000000000000679592650000000000000000000081337500000000000000000000000000712718670000000000000000000081325000000000000000000000000000684917950000000000000000000081312500000000000000000000000000668256250000000000000000000081300000000000000000000000000000685504890000000000000000000081287500000000000000000000000000689384540000000000000000000081275000000000000000000000000000734058160000000000000000000081262500000000000000000000000000735977910000000000000000000081250000000000000000000000000000708696940000000000000000000081237500000000000000000000000000732970390000000000000000000081225000000000000000000000000000677004820000000000000000000081212500000000000000000000000000693532150000000000000000000081200000000000000000000000000000653111180000000000000000000081187500000000000000000000000000720654430000000000000000000081175000000000000000000000000000777561610000000000000000000081162500000000000000000000000000758758540000000000000000000081150000000000000000000000000000720356490000000000000000000081137500000000000000000000000000724930790000000000000000000081125000000000000000000000000000703115050000000000000000000081112500000000000000000000000000705097730000000000000000000081100000000000000000000000000000673161210000000000000000000081087500000000000000000000000000668212850000000000000000000081075000000000000000000000000000664845180000000000000000000081062500000000000000000000000000708489390000000000000000000081050000000000000000000000000000698941640000000000000000000081037500000000000000000000000000703710560000000000000000000081025000000000000000000000000000734596460000000000000000000081012500000000000000000000000000728131020000000000000000000081000000000000000000000,
    707685370000000000000000000082587500000000000000000000000000764262440000000000000000000082575000000000000000000000000000728496360000000000000000000082562500000000000000000000000000707524820000000000000000000082550000000000000000000000000000678846280000000000000000000082537500000000000000000000000000709942780000000000000000000082525000000000000000000000000000738995620000000000000000000082512500000000000000000000000000685184460000000000000000000082500000000000000000000000000000697470810000000000000000000082487500000000000000000000000000706438610000000000000000000082475000000000000000000000000000696467440000000000000000000082462500000000000000000000000000713004390000000000000000000082450000000000000000000000000000657750910000000000000000000082437500000000000000000000000000649262670000000000000000000082425000000000000000000000000000644841040000000000000000000082412500000000000000000000000000717148130000000000000000000082400000000000000000000000000000757396230000000000000000000082387500000000000000000000000000714007090000000000000000000082375000000000000000000000000000643392290000000000000000000082362500000000000000000000000000608346530000000000000000000082350000000000000000000000000000687126930000000000000000000082337500000000000000000000000000697266440000000000000000000082325000000000000000000000000000655840980000000000000000000082312500000000000000000000000000646935780000000000000000000082300000000000000000000000000000639998650000000000000000000082287500000000000000000000000000701547130000000000000000000082275000000000000000000000000000769909960000000000000000000082262500000000000000000000000000719749640000000000000000000082250000000000000000000000000000732472710000000000000000000082237500000000000000000000000000695401680000000000000000000082225000000000000000000000000000670065790000000000000000000082212500000000000000000000000000663191080000000000000000000082200000000000000000000000000000696050660000000000000000000082187500000000000000000000000000684587110000000000000000000082175000000000000000000000000000662005080000000000000000000082162500000000000000000000000000708161290000000000000000000082150000000000000000000000000000729451000000000000000000000082137500000000000000000000000000757584310000000000000000000082125000000000000000000000000000724969550000000000000000000082112500000000000000000000000000682352430000000000000000000082100000000000000000000000000000648192600000000000000000000082087500000000000000000000000000684179290000000000000000000082075000000000000000000000000000670891840000000000000000000082062500000000000000000000000000712358720000000000000000000082050000000000000000000000000000766957870000000000000000000082037500000000000000000000000000735377020000000000000000000082025000000000000000000000000000730575850000000000000000000082012500000000000000000000000000716978900000000000000000000082000000000000000000000000000000735300380000000000000000000081987500000000000000000000000000756085740000000000000000000081975000000000000000000000000000706734420000000000000000000081962500000000000000000000000000681817120000000000000000000081950000000000000000000000000000717739950000000000000000000081937500000000000000000000000000662567130000000000000000000081925000000000000000000000000000706511610000000000000000000081912500000000000000000000000000716469940000000000000000000081900000000000000000000000000000735927020000000000000000000081887500000000000000000000000000774686470000000000000000000081875000000000000000000000000000766404020000000000000000000081862500000000000000000000000000715139510000000000000000000081850000000000000000000000000000719998930000000000000000000081837500000000000000000000000000754684510000000000000000000081825000000000000000000000000000680196510000000000000000000081812500000000000000000000000000695185380000000000000000000081800000000000000000000,
    710928840000000000000000000083387500000000000000000000000000740214640000000000000000000083375000000000000000000000000000750798540000000000000000000083362500000000000000000000000000698344680000000000000000000083350000000000000000000000000000681339300000000000000000000083337500000000000000000000000000739607000000000000000000000083325000000000000000000000000000685003160000000000000000000083312500000000000000000000000000706189460000000000000000000083300000000000000000000000000000652532530000000000000000000083287500000000000000000000000000707323300000000000000000000083275000000000000000000000000000713013690000000000000000000083262500000000000000000000000000732177740000000000000000000083250000000000000000000000000000722052870000000000000000000083237500000000000000000000000000706442230000000000000000000083225000000000000000000000000000720083620000000000000000000083212500000000000000000000000000757354860000000000000000000083200000000000000000000000000000760730640000000000000000000083187500000000000000000000000000690988560000000000000000000083175000000000000000000000000000715804400000000000000000000083162500000000000000000000000000739889380000000000000000000083150000000000000000000000000000741443570000000000000000000083137500000000000000000000000000730867870000000000000000000083125000000000000000000000000000681541100000000000000000000083112500000000000000000000000000682539520000000000000000000083100000000000000000000000000000702761390000000000000000000083087500000000000000000000000000679682780000000000000000000083075000000000000000000000000000681960360000000000000000000083062500000000000000000000000000684243350000000000000000000083050000000000000000000000000000697173120000000000000000000083037500000000000000000000000000716742090000000000000000000083025000000000000000000000000000717901130000000000000000000083012500000000000000000000000000723823230000000000000000000083000000000000000000000000000000720574760000000000000000000082987500000000000000000000000000707230550000000000000000000082975000000000000000000000000000704954600000000000000000000082962500000000000000000000000000672273080000000000000000000082950000000000000000000000000000657581050000000000000000000082937500000000000000000000000000689494170000000000000000000082925000000000000000000000000000738757250000000000000000000082912500000000000000000000000000755686250000000000000000000082900000000000000000000000000000750087040000000000000000000082887500000000000000000000000000655174410000000000000000000082875000000000000000000000000000718574980000000000000000000082862500000000000000000000000000699423280000000000000000000082850000000000000000000000000000642164530000000000000000000082837500000000000000000000000000665497480000000000000000000082825000000000000000000000000000727490520000000000000000000082812500000000000000000000000000721741440000000000000000000082800000000000000000000000000000746900370000000000000000000082787500000000000000000000000000728374270000000000000000000082775000000000000000000000000000649286000000000000000000000082762500000000000000000000000000688895070000000000000000000082750000000000000000000000000000738537080000000000000000000082737500000000000000000000000000745484110000000000000000000082725000000000000000000000000000670852520000000000000000000082712500000000000000000000000000668474660000000000000000000082700000000000000000000000000000678421150000000000000000000082687500000000000000000000000000705841140000000000000000000082675000000000000000000000000000712906000000000000000000000082662500000000000000000000000000769152190000000000000000000082650000000000000000000000000000722321830000000000000000000082637500000000000000000000000000602061950000000000000000000082625000000000000000000000000000625868710000000000000000000082612500000000000000000000000000684968590000000000000000000082600000000000000000000,
    711352300000000000000000000084187500000000000000000000000000672562620000000000000000000084175000000000000000000000000000655300140000000000000000000084162500000000000000000000000000682554750000000000000000000084150000000000000000000000000000682809330000000000000000000084137500000000000000000000000000699148720000000000000000000084125000000000000000000000000000737964140000000000000000000084112500000000000000000000000000740556270000000000000000000084100000000000000000000000000000672501430000000000000000000084087500000000000000000000000000694807810000000000000000000084075000000000000000000000000000751944790000000000000000000084062500000000000000000000000000700409240000000000000000000084050000000000000000000000000000695723570000000000000000000084037500000000000000000000000000715477270000000000000000000084025000000000000000000000000000717666850000000000000000000084012500000000000000000000000000695102440000000000000000000084000000000000000000000000000000684813820000000000000000000083987500000000000000000000000000704581490000000000000000000083975000000000000000000000000000732290630000000000000000000083962500000000000000000000000000756784270000000000000000000083950000000000000000000000000000741636450000000000000000000083937500000000000000000000000000716426810000000000000000000083925000000000000000000000000000682897360000000000000000000083912500000000000000000000000000722047990000000000000000000083900000000000000000000000000000762296730000000000000000000083887500000000000000000000000000737000010000000000000000000083875000000000000000000000000000774732880000000000000000000083862500000000000000000000000000774243440000000000000000000083850000000000000000000000000000703944050000000000000000000083837500000000000000000000000000626542600000000000000000000083825000000000000000000000000000705950420000000000000000000083812500000000000000000000000000704598120000000000000000000083800000000000000000000000000000652665780000000000000000000083787500000000000000000000000000650085020000000000000000000083775000000000000000000000000000699898480000000000000000000083762500000000000000000000000000705506890000000000000000000083750000000000000000000000000000715970370000000000000000000083737500000000000000000000000000738271660000000000000000000083725000000000000000000000000000766934930000000000000000000083712500000000000000000000000000754222780000000000000000000083700000000000000000000000000000773025300000000000000000000083687500000000000000000000000000751084810000000000000000000083675000000000000000000000000000785926740000000000000000000083662500000000000000000000000000684654820000000000000000000083650000000000000000000000000000735762970000000000000000000083637500000000000000000000000000758470180000000000000000000083625000000000000000000000000000790927310000000000000000000083612500000000000000000000000000725418260000000000000000000083600000000000000000000000000000689262220000000000000000000083587500000000000000000000000000721811410000000000000000000083575000000000000000000000000000772583710000000000000000000083562500000000000000000000000000742101840000000000000000000083550000000000000000000000000000669745520000000000000000000083537500000000000000000000000000783326680000000000000000000083525000000000000000000000000000797323620000000000000000000083512500000000000000000000000000768921620000000000000000000083500000000000000000000000000000712027610000000000000000000083487500000000000000000000000000731106530000000000000000000083475000000000000000000000000000767601230000000000000000000083462500000000000000000000000000773455930000000000000000000083450000000000000000000000000000726470500000000000000000000083437500000000000000000000000000686581040000000000000000000083425000000000000000000000000000773768200000000000000000000083412500000000000000000000000000770880150000000000000000000083400000000000000000000,
    786442770000000000000000000084987500000000000000000000000000733327890000000000000000000084975000000000000000000000000000709284250000000000000000000084962500000000000000000000000000735179380000000000000000000084950000000000000000000000000000750248070000000000000000000084937500000000000000000000000000772615130000000000000000000084925000000000000000000000000000722594610000000000000000000084912500000000000000000000000000725797790000000000000000000084900000000000000000000000000000692615910000000000000000000084887500000000000000000000000000731236020000000000000000000084875000000000000000000000000000670566880000000000000000000084862500000000000000000000000000668538570000000000000000000084850000000000000000000000000000761289590000000000000000000084837500000000000000000000000000775795540000000000000000000084825000000000000000000000000000732568870000000000000000000084812500000000000000000000000000735619140000000000000000000084800000000000000000000000000000715227090000000000000000000084787500000000000000000000000000695966280000000000000000000084775000000000000000000000000000647591330000000000000000000084762500000000000000000000000000714420160000000000000000000084750000000000000000000000000000733830360000000000000000000084737500000000000000000000000000701350110000000000000000000084725000000000000000000000000000692795210000000000000000000084712500000000000000000000000000714922500000000000000000000084700000000000000000000000000000690712710000000000000000000084687500000000000000000000000000767060240000000000000000000084675000000000000000000000000000786587190000000000000000000084662500000000000000000000000000714149200000000000000000000084650000000000000000000000000000741652180000000000000000000084637500000000000000000000000000720872920000000000000000000084625000000000000000000000000000702038310000000000000000000084612500000000000000000000000000721347060000000000000000000084600000000000000000000000000000692419770000000000000000000084587500000000000000000000000000724314520000000000000000000084575000000000000000000000000000777751150000000000000000000084562500000000000000000000000000774017470000000000000000000084550000000000000000000000000000791448590000000000000000000084537500000000000000000000000000720856910000000000000000000084525000000000000000000000000000717465820000000000000000000084512500000000000000000000000000726223340000000000000000000084500000000000000000000000000000709245770000000000000000000084487500000000000000000000000000726010850000000000000000000084475000000000000000000000000000688792810000000000000000000084462500000000000000000000000000660690530000000000000000000084450000000000000000000000000000738391620000000000000000000084437500000000000000000000000000762615240000000000000000000084425000000000000000000000000000744195010000000000000000000084412500000000000000000000000000760357210000000000000000000084400000000000000000000000000000718776240000000000000000000084387500000000000000000000000000653555260000000000000000000084375000000000000000000000000000686210790000000000000000000084362500000000000000000000000000717979950000000000000000000084350000000000000000000000000000698039690000000000000000000084337500000000000000000000000000690823830000000000000000000084325000000000000000000000000000657953690000000000000000000084312500000000000000000000000000662801250000000000000000000084300000000000000000000000000000710836800000000000000000000084287500000000000000000000000000716919830000000000000000000084275000000000000000000000000000701764910000000000000000000084262500000000000000000000000000710604900000000000000000000084250000000000000000000000000000727227880000000000000000000084237500000000000000000000000000711227370000000000000000000084225000000000000000000000000000759181780000000000000000000084212500000000000000000000000000749293010000000000000000000084200000000000000000000,
    737995630000000000000000000085787500000000000000000000000000734761400000000000000000000085775000000000000000000000000000684291900000000000000000000085762500000000000000000000000000663847620000000000000000000085750000000000000000000000000000715238990000000000000000000085737500000000000000000000000000741320570000000000000000000085725000000000000000000000000000714879160000000000000000000085712500000000000000000000000000710249350000000000000000000085700000000000000000000000000000755807980000000000000000000085687500000000000000000000000000715833910000000000000000000085675000000000000000000000000000631334540000000000000000000085662500000000000000000000000000698676450000000000000000000085650000000000000000000000000000752677100000000000000000000085637500000000000000000000000000784257270000000000000000000085625000000000000000000000000000750596790000000000000000000085612500000000000000000000000000712709290000000000000000000085600000000000000000000000000000735130860000000000000000000085587500000000000000000000000000752138840000000000000000000085575000000000000000000000000000747183310000000000000000000085562500000000000000000000000000741872630000000000000000000085550000000000000000000000000000683118700000000000000000000085537500000000000000000000000000650030520000000000000000000085525000000000000000000000000000725449700000000000000000000085512500000000000000000000000000759452520000000000000000000085500000000000000000000000000000745499550000000000000000000085487500000000000000000000000000731118910000000000000000000085475000000000000000000000000000722983220000000000000000000085462500000000000000000000000000723851000000000000000000000085450000000000000000000000000000741481470000000000000000000085437500000000000000000000000000682099890000000000000000000085425000000000000000000000000000702078430000000000000000000085412500000000000000000000000000743711910000000000000000000085400000000000000000000000000000725384500000000000000000000085387500000000000000000000000000659027990000000000000000000085375000000000000000000000000000679084540000000000000000000085362500000000000000000000000000681605100000000000000000000085350000000000000000000000000000685669990000000000000000000085337500000000000000000000000000707520010000000000000000000085325000000000000000000000000000697519960000000000000000000085312500000000000000000000000000718581580000000000000000000085300000000000000000000000000000709641430000000000000000000085287500000000000000000000000000757933100000000000000000000085275000000000000000000000000000722725080000000000000000000085262500000000000000000000000000698310040000000000000000000085250000000000000000000000000000721231120000000000000000000085237500000000000000000000000000727942600000000000000000000085225000000000000000000000000000781807990000000000000000000085212500000000000000000000000000710080530000000000000000000085200000000000000000000000000000655028140000000000000000000085187500000000000000000000000000689487700000000000000000000085175000000000000000000000000000773642440000000000000000000085162500000000000000000000000000698270030000000000000000000085150000000000000000000000000000685180810000000000000000000085137500000000000000000000000000694273320000000000000000000085125000000000000000000000000000710088940000000000000000000085112500000000000000000000000000677668550000000000000000000085100000000000000000000000000000633573090000000000000000000085087500000000000000000000000000662903340000000000000000000085075000000000000000000000000000703002420000000000000000000085062500000000000000000000000000722203760000000000000000000085050000000000000000000000000000711212410000000000000000000085037500000000000000000000000000721274450000000000000000000085025000000000000000000000000000757057610000000000000000000085012500000000000000000000000000794077610000000000000000000085000000000000000000000,
    720993450000000000000000000086587500000000000000000000000000714271420000000000000000000086575000000000000000000000000000668990980000000000000000000086562500000000000000000000000000675703340000000000000000000086550000000000000000000000000000682612100000000000000000000086537500000000000000000000000000687415710000000000000000000086525000000000000000000000000000711019280000000000000000000086512500000000000000000000000000674398110000000000000000000086500000000000000000000000000000679039480000000000000000000086487500000000000000000000000000678603560000000000000000000086475000000000000000000000000000749055490000000000000000000086462500000000000000000000000000672332710000000000000000000086450000000000000000000000000000662965600000000000000000000086437500000000000000000000000000636336290000000000000000000086425000000000000000000000000000642312090000000000000000000086412500000000000000000000000000661903110000000000000000000086400000000000000000000000000000737604060000000000000000000086387500000000000000000000000000731104700000000000000000000086375000000000000000000000000000730826340000000000000000000086362500000000000000000000000000718511880000000000000000000086350000000000000000000000000000706259550000000000000000000086337500000000000000000000000000733359120000000000000000000086325000000000000000000000000000723037150000000000000000000086312500000000000000000000000000737460690000000000000000000086300000000000000000000000000000754482750000000000000000000086287500000000000000000000000000746817420000000000000000000086275000000000000000000000000000731956580000000000000000000086262500000000000000000000000000758710340000000000000000000086250000000000000000000000000000793747930000000000000000000086237500000000000000000000000000730238510000000000000000000086225000000000000000000000000000754915400000000000000000000086212500000000000000000000000000724378500000000000000000000086200000000000000000000000000000669943330000000000000000000086187500000000000000000000000000692956730000000000000000000086175000000000000000000000000000713194890000000000000000000086162500000000000000000000000000711668980000000000000000000086150000000000000000000000000000702508210000000000000000000086137500000000000000000000000000700174970000000000000000000086125000000000000000000000000000676295270000000000000000000086112500000000000000000000000000650499350000000000000000000086100000000000000000000000000000693203750000000000000000000086087500000000000000000000000000692792620000000000000000000086075000000000000000000000000000654011280000000000000000000086062500000000000000000000000000704155380000000000000000000086050000000000000000000000000000700443460000000000000000000086037500000000000000000000000000675089440000000000000000000086025000000000000000000000000000687780340000000000000000000086012500000000000000000000000000719645210000000000000000000086000000000000000000000000000000734596020000000000000000000085987500000000000000000000000000737358040000000000000000000085975000000000000000000000000000727094290000000000000000000085962500000000000000000000000000745025970000000000000000000085950000000000000000000000000000751150500000000000000000000085937500000000000000000000000000757548650000000000000000000085925000000000000000000000000000687653560000000000000000000085912500000000000000000000000000704234650000000000000000000085900000000000000000000000000000709344130000000000000000000085887500000000000000000000000000725998610000000000000000000085875000000000000000000000000000692007060000000000000000000085862500000000000000000000000000669614480000000000000000000085850000000000000000000000000000705952510000000000000000000085837500000000000000000000000000737324270000000000000000000085825000000000000000000000000000703902940000000000000000000085812500000000000000000000000000723564490000000000000000000085800000000000000000000,
    805170510000000000000000000087387500000000000000000000000000769815000000000000000000000087375000000000000000000000000000712850000000000000000000000087362500000000000000000000000000783063020000000000000000000087350000000000000000000000000000778191960000000000000000000087337500000000000000000000000000757740570000000000000000000087325000000000000000000000000000724211350000000000000000000087312500000000000000000000000000744185690000000000000000000087300000000000000000000000000000702315660000000000000000000087287500000000000000000000000000657697090000000000000000000087275000000000000000000000000000690243760000000000000000000087262500000000000000000000000000739504630000000000000000000087250000000000000000000000000000720770860000000000000000000087237500000000000000000000000000736204260000000000000000000087225000000000000000000000000000721115270000000000000000000087212500000000000000000000000000687438390000000000000000000087200000000000000000000000000000707916760000000000000000000087187500000000000000000000000000716725110000000000000000000087175000000000000000000000000000703765880000000000000000000087162500000000000000000000000000750337270000000000000000000087150000000000000000000000000000726089050000000000000000000087137500000000000000000000000000694297070000000000000000000087125000000000000000000000000000715189220000000000000000000087112500000000000000000000000000733786690000000000000000000087100000000000000000000000000000741281830000000000000000000087087500000000000000000000000000762257310000000000000000000087075000000000000000000000000000701710480000000000000000000087062500000000000000000000000000670481820000000000000000000087050000000000000000000000000000709784790000000000000000000087037500000000000000000000000000694109990000000000000000000087025000000000000000000000000000710745630000000000000000000087012500000000000000000000000000700668910000000000000000000087000000000000000000000000000000695092630000000000000000000086987500000000000000000000000000752858280000000000000000000086975000000000000000000000000000802356380000000000000000000086962500000000000000000000000000806519290000000000000000000086950000000000000000000000000000766512860000000000000000000086937500000000000000000000000000779979110000000000000000000086925000000000000000000000000000757091430000000000000000000086912500000000000000000000000000730122290000000000000000000086900000000000000000000000000000679797820000000000000000000086887500000000000000000000000000674027200000000000000000000086875000000000000000000000000000706867250000000000000000000086862500000000000000000000000000729341930000000000000000000086850000000000000000000000000000692055070000000000000000000086837500000000000000000000000000737131490000000000000000000086825000000000000000000000000000744015450000000000000000000086812500000000000000000000000000726164040000000000000000000086800000000000000000000000000000760552400000000000000000000086787500000000000000000000000000751866200000000000000000000086775000000000000000000000000000715509550000000000000000000086762500000000000000000000000000729968570000000000000000000086750000000000000000000000000000687812250000000000000000000086737500000000000000000000000000676628100000000000000000000086725000000000000000000000000000714408120000000000000000000086712500000000000000000000000000772816890000000000000000000086700000000000000000000000000000766665250000000000000000000086687500000000000000000000000000667823230000000000000000000086675000000000000000000000000000737429190000000000000000000086662500000000000000000000000000723622150000000000000000000086650000000000000000000000000000709013530000000000000000000086637500000000000000000000000000753140400000000000000000000086625000000000000000000000000000779111070000000000000000000086612500000000000000000000000000744390520000000000000000000086600000000000000000000,
    704340590000000000000000000088187500000000000000000000000000733323170000000000000000000088175000000000000000000000000000692411820000000000000000000088162500000000000000000000000000727987170000000000000000000088150000000000000000000000000000722658750000000000000000000088137500000000000000000000000000704700420000000000000000000088125000000000000000000000000000719044650000000000000000000088112500000000000000000000000000752138870000000000000000000088100000000000000000000000000000732043460000000000000000000088087500000000000000000000000000730450150000000000000000000088075000000000000000000000000000698058250000000000000000000088062500000000000000000000000000725881900000000000000000000088050000000000000000000000000000733125770000000000000000000088037500000000000000000000000000774994440000000000000000000088025000000000000000000000000000771355930000000000000000000088012500000000000000000000000000733493000000000000000000000088000000000000000000000000000000756816320000000000000000000087987500000000000000000000000000773341300000000000000000000087975000000000000000000000000000736070120000000000000000000087962500000000000000000000000000767219480000000000000000000087950000000000000000000000000000771012080000000000000000000087937500000000000000000000000000716650750000000000000000000087925000000000000000000000000000719795610000000000000000000087912500000000000000000000000000752079930000000000000000000087900000000000000000000000000000704372020000000000000000000087887500000000000000000000000000758300710000000000000000000087875000000000000000000000000000724524900000000000000000000087862500000000000000000000000000702901980000000000000000000087850000000000000000000000000000742816880000000000000000000087837500000000000000000000000000714554290000000000000000000087825000000000000000000000000000733537060000000000000000000087812500000000000000000000000000733243280000000000000000000087800000000000000000000000000000776716520000000000000000000087787500000000000000000000000000739347580000000000000000000087775000000000000000000000000000725918130000000000000000000087762500000000000000000000000000685781630000000000000000000087750000000000000000000000000000664070280000000000000000000087737500000000000000000000000000702332810000000000000000000087725000000000000000000000000000714974590000000000000000000087712500000000000000000000000000728363320000000000000000000087700000000000000000000000000000746646680000000000000000000087687500000000000000000000000000740706930000000000000000000087675000000000000000000000000000725791030000000000000000000087662500000000000000000000000000744938250000000000000000000087650000000000000000000000000000758685610000000000000000000087637500000000000000000000000000740941610000000000000000000087625000000000000000000000000000692676880000000000000000000087612500000000000000000000000000732472250000000000000000000087600000000000000000000000000000768086890000000000000000000087587500000000000000000000000000717958280000000000000000000087575000000000000000000000000000695018540000000000000000000087562500000000000000000000000000685904760000000000000000000087550000000000000000000000000000660903650000000000000000000087537500000000000000000000000000671505370000000000000000000087525000000000000000000000000000739036750000000000000000000087512500000000000000000000000000757836440000000000000000000087500000000000000000000000000000710857580000000000000000000087487500000000000000000000000000717753520000000000000000000087475000000000000000000000000000719379350000000000000000000087462500000000000000000000000000693487940000000000000000000087450000000000000000000000000000757378080000000000000000000087437500000000000000000000000000685677070000000000000000000087425000000000000000000000000000659761800000000000000000000087412500000000000000000000000000744372380000000000000000000087400000000000000000000,
    763806990000000000000000000088987500000000000000000000000000778164430000000000000000000088975000000000000000000000000000741016660000000000000000000088962500000000000000000000000000719193750000000000000000000088950000000000000000000000000000750149900000000000000000000088937500000000000000000000000000746769290000000000000000000088925000000000000000000000000000699826730000000000000000000088912500000000000000000000000000690211470000000000000000000088900000000000000000000000000000706458190000000000000000000088887500000000000000000000000000682245870000000000000000000088875000000000000000000000000000721233470000000000000000000088862500000000000000000000000000773206200000000000000000000088850000000000000000000000000000727520410000000000000000000088837500000000000000000000000000714436000000000000000000000088825000000000000000000000000000729102420000000000000000000088812500000000000000000000000000749035870000000000000000000088800000000000000000000000000000746809260000000000000000000088787500000000000000000000000000720296770000000000000000000088775000000000000000000000000000776083710000000000000000000088762500000000000000000000000000749866310000000000000000000088750000000000000000000000000000719890760000000000000000000088737500000000000000000000000000734324720000000000000000000088725000000000000000000000000000739609900000000000000000000088712500000000000000000000000000720919680000000000000000000088700000000000000000000000000000725153990000000000000000000088687500000000000000000000000000824603360000000000000000000088675000000000000000000000000000822279390000000000000000000088662500000000000000000000000000769519070000000000000000000088650000000000000000000000000000655197590000000000000000000088637500000000000000000000000000718072880000000000000000000088625000000000000000000000000000772544730000000000000000000088612500000000000000000000000000731941560000000000000000000088600000000000000000000000000000684786840000000000000000000088587500000000000000000000000000726686900000000000000000000088575000000000000000000000000000737343890000000000000000000088562500000000000000000000000000768609760000000000000000000088550000000000000000000000000000719782450000000000000000000088537500000000000000000000000000724840770000000000000000000088525000000000000000000000000000679520640000000000000000000088512500000000000000000000000000702506190000000000000000000088500000000000000000000000000000729120350000000000000000000088487500000000000000000000000000724747270000000000000000000088475000000000000000000000000000731735630000000000000000000088462500000000000000000000000000689207050000000000000000000088450000000000000000000000000000725077550000000000000000000088437500000000000000000000000000702231340000000000000000000088425000000000000000000000000000649720880000000000000000000088412500000000000000000000000000670264410000000000000000000088400000000000000000000000000000668900770000000000000000000088387500000000000000000000000000723728960000000000000000000088375000000000000000000000000000702278400000000000000000000088362500000000000000000000000000751076460000000000000000000088350000000000000000000000000000760183220000000000000000000088337500000000000000000000000000735758150000000000000000000088325000000000000000000000000000777376850000000000000000000088312500000000000000000000000000760582220000000000000000000088300000000000000000000000000000763234100000000000000000000088287500000000000000000000000000698129270000000000000000000088275000000000000000000000000000696151720000000000000000000088262500000000000000000000000000694899170000000000000000000088250000000000000000000000000000736524330000000000000000000088237500000000000000000000000000738638960000000000000000000088225000000000000000000000000000666371280000000000000000000088212500000000000000000000000000692649390000000000000000000088200000000000000000000,
    740692070000000000000000000089787500000000000000000000000000740441340000000000000000000089775000000000000000000000000000778721340000000000000000000089762500000000000000000000000000703265780000000000000000000089750000000000000000000000000000699920800000000000000000000089737500000000000000000000000000793173770000000000000000000089725000000000000000000000000000775771910000000000000000000089712500000000000000000000000000731180140000000000000000000089700000000000000000000000000000699995300000000000000000000089687500000000000000000000000000683250390000000000000000000089675000000000000000000000000000686170920000000000000000000089662500000000000000000000000000695442780000000000000000000089650000000000000000000000000000756558500000000000000000000089637500000000000000000000000000813778170000000000000000000089625000000000000000000000000000741388760000000000000000000089612500000000000000000000000000742529410000000000000000000089600000000000000000000000000000783509190000000000000000000089587500000000000000000000000000750916940000000000000000000089575000000000000000000000000000706393660000000000000000000089562500000000000000000000000000679965230000000000000000000089550000000000000000000000000000686054210000000000000000000089537500000000000000000000000000720312050000000000000000000089525000000000000000000000000000707636780000000000000000000089512500000000000000000000000000744336310000000000000000000089500000000000000000000000000000757174350000000000000000000089487500000000000000000000000000735008660000000000000000000089475000000000000000000000000000731204090000000000000000000089462500000000000000000000000000747495500000000000000000000089450000000000000000000000000000731631850000000000000000000089437500000000000000000000000000669406100000000000000000000089425000000000000000000000000000699983340000000000000000000089412500000000000000000000000000752863590000000000000000000089400000000000000000000000000000733080360000000000000000000089387500000000000000000000000000731179150000000000000000000089375000000000000000000000000000720640020000000000000000000089362500000000000000000000000000748778340000000000000000000089350000000000000000000000000000789931560000000000000000000089337500000000000000000000000000765986430000000000000000000089325000000000000000000000000000761301730000000000000000000089312500000000000000000000000000712143780000000000000000000089300000000000000000000000000000703511690000000000000000000089287500000000000000000000000000690652290000000000000000000089275000000000000000000000000000690127670000000000000000000089262500000000000000000000000000719735240000000000000000000089250000000000000000000000000000760488350000000000000000000089237500000000000000000000000000723507120000000000000000000089225000000000000000000000000000683403840000000000000000000089212500000000000000000000000000688794230000000000000000000089200000000000000000000000000000680121220000000000000000000089187500000000000000000000000000694422770000000000000000000089175000000000000000000000000000729411700000000000000000000089162500000000000000000000000000715935950000000000000000000089150000000000000000000000000000746146240000000000000000000089137500000000000000000000000000786668210000000000000000000089125000000000000000000000000000751470950000000000000000000089112500000000000000000000000000719533670000000000000000000089100000000000000000000000000000707092580000000000000000000089087500000000000000000000000000743123310000000000000000000089075000000000000000000000000000718674920000000000000000000089062500000000000000000000000000669399620000000000000000000089050000000000000000000000000000711826420000000000000000000089037500000000000000000000000000762346430000000000000000000089025000000000000000000000000000728843690000000000000000000089012500000000000000000000000000716916990000000000000000000089000000000000000000000,
    679321630000000000000000000090587500000000000000000000000000717323170000000000000000000090575000000000000000000000000000761282110000000000000000000090562500000000000000000000000000723059980000000000000000000090550000000000000000000000000000739479290000000000000000000090537500000000000000000000000000741423180000000000000000000090525000000000000000000000000000733680910000000000000000000090512500000000000000000000000000737003410000000000000000000090500000000000000000000000000000691801150000000000000000000090487500000000000000000000000000819466950000000000000000000090475000000000000000000000000000797979270000000000000000000090462500000000000000000000000000771913720000000000000000000090450000000000000000000000000000687548790000000000000000000090437500000000000000000000000000679080450000000000000000000090425000000000000000000000000000750973380000000000000000000090412500000000000000000000000000784787140000000000000000000090400000000000000000000000000000776301650000000000000000000090387500000000000000000000000000732695570000000000000000000090375000000000000000000000000000706675420000000000000000000090362500000000000000000000000000762312640000000000000000000090350000000000000000000000000000796804530000000000000000000090337500000000000000000000000000695136050000000000000000000090325000000000000000000000000000666967210000000000000000000090312500000000000000000000000000746001070000000000000000000090300000000000000000000000000000772565040000000000000000000090287500000000000000000000000000851604950000000000000000000090275000000000000000000000000000826240400000000000000000000090262500000000000000000000000000775206770000000000000000000090250000000000000000000000000000778198680000000000000000000090237500000000000000000000000000772119220000000000000000000090225000000000000000000000000000749900310000000000000000000090212500000000000000000000000000786731520000000000000000000090200000000000000000000000000000806608820000000000000000000090187500000000000000000000000000810752830000000000000000000090175000000000000000000000000000718565310000000000000000000090162500000000000000000000000000643361720000000000000000000090150000000000000000000000000000727307930000000000000000000090137500000000000000000000000000757138250000000000000000000090125000000000000000000000000000739847920000000000000000000090112500000000000000000000000000681407020000000000000000000090100000000000000000000000000000672049670000000000000000000090087500000000000000000000000000705507190000000000000000000090075000000000000000000000000000750291160000000000000000000090062500000000000000000000000000776701570000000000000000000090050000000000000000000000000000764272640000000000000000000090037500000000000000000000000000718480700000000000000000000090025000000000000000000000000000749111030000000000000000000090012500000000000000000000000000748578560000000000000000000090000000000000000000000000000000774062510000000000000000000089987500000000000000000000000000761781740000000000000000000089975000000000000000000000000000742871860000000000000000000089962500000000000000000000000000740464040000000000000000000089950000000000000000000000000000814599350000000000000000000089937500000000000000000000000000780572890000000000000000000089925000000000000000000000000000707669980000000000000000000089912500000000000000000000000000738721390000000000000000000089900000000000000000000000000000790894780000000000000000000089887500000000000000000000000000669938010000000000000000000089875000000000000000000000000000706966370000000000000000000089862500000000000000000000000000781639820000000000000000000089850000000000000000000000000000761538420000000000000000000089837500000000000000000000000000750634650000000000000000000089825000000000000000000000000000752172370000000000000000000089812500000000000000000000000000764173490000000000000000000089800000000000000000000,
    790831480000000000000000000091387500000000000000000000000000832740340000000000000000000091375000000000000000000000000000785568130000000000000000000091362500000000000000000000000000727417380000000000000000000091350000000000000000000000000000702625540000000000000000000091337500000000000000000000000000738109450000000000000000000091325000000000000000000000000000806697800000000000000000000091312500000000000000000000000000770870840000000000000000000091300000000000000000000000000000761922970000000000000000000091287500000000000000000000000000778877680000000000000000000091275000000000000000000000000000814933540000000000000000000091262500000000000000000000000000800944820000000000000000000091250000000000000000000000000000794440570000000000000000000091237500000000000000000000000000757104000000000000000000000091225000000000000000000000000000713966150000000000000000000091212500000000000000000000000000779315020000000000000000000091200000000000000000000000000000735513220000000000000000000091187500000000000000000000000000715295840000000000000000000091175000000000000000000000000000700345870000000000000000000091162500000000000000000000000000682494780000000000000000000091150000000000000000000000000000735051530000000000000000000091137500000000000000000000000000720053500000000000000000000091125000000000000000000000000000693334020000000000000000000091112500000000000000000000000000677562590000000000000000000091100000000000000000000000000000717763560000000000000000000091087500000000000000000000000000761295790000000000000000000091075000000000000000000000000000807277660000000000000000000091062500000000000000000000000000767652960000000000000000000091050000000000000000000000000000713591130000000000000000000091037500000000000000000000000000699268780000000000000000000091025000000000000000000000000000725071260000000000000000000091012500000000000000000000000000711255030000000000000000000091000000000000000000000000000000740279790000000000000000000090987500000000000000000000000000778215820000000000000000000090975000000000000000000000000000745031150000000000000000000090962500000000000000000000000000713624960000000000000000000090950000000000000000000000000000680845330000000000000000000090937500000000000000000000000000744426800000000000000000000090925000000000000000000000000000721528450000000000000000000090912500000000000000000000000000735781560000000000000000000090900000000000000000000000000000691225810000000000000000000090887500000000000000000000000000684458270000000000000000000090875000000000000000000000000000704976090000000000000000000090862500000000000000000000000000688647380000000000000000000090850000000000000000000000000000635375710000000000000000000090837500000000000000000000000000682337890000000000000000000090825000000000000000000000000000671801580000000000000000000090812500000000000000000000000000666353890000000000000000000090800000000000000000000000000000755198580000000000000000000090787500000000000000000000000000776860970000000000000000000090775000000000000000000000000000683754610000000000000000000090762500000000000000000000000000773599370000000000000000000090750000000000000000000000000000801367750000000000000000000090737500000000000000000000000000754276440000000000000000000090725000000000000000000000000000695798460000000000000000000090712500000000000000000000000000679227070000000000000000000090700000000000000000000000000000665360310000000000000000000090687500000000000000000000000000716925720000000000000000000090675000000000000000000000000000735481280000000000000000000090662500000000000000000000000000732553650000000000000000000090650000000000000000000000000000757988490000000000000000000090637500000000000000000000000000846201110000000000000000000090625000000000000000000000000000784871110000000000000000000090612500000000000000000000000000761204860000000000000000000090600000000000000000000,
    755346010000000000000000000092187500000000000000000000000000792194340000000000000000000092175000000000000000000000000000864616820000000000000000000092162500000000000000000000000000807400840000000000000000000092150000000000000000000000000000797697300000000000000000000092137500000000000000000000000000763381330000000000000000000092125000000000000000000000000000768230980000000000000000000092112500000000000000000000000000756684090000000000000000000092100000000000000000000000000000757857640000000000000000000092087500000000000000000000000000743228140000000000000000000092075000000000000000000000000000737133490000000000000000000092062500000000000000000000000000779166780000000000000000000092050000000000000000000000000000830797810000000000000000000092037500000000000000000000000000812176850000000000000000000092025000000000000000000000000000740220270000000000000000000092012500000000000000000000000000749168840000000000000000000092000000000000000000000000000000759843840000000000000000000091987500000000000000000000000000742225620000000000000000000091975000000000000000000000000000714987630000000000000000000091962500000000000000000000000000770496320000000000000000000091950000000000000000000000000000779238570000000000000000000091937500000000000000000000000000801726820000000000000000000091925000000000000000000000000000814060520000000000000000000091912500000000000000000000000000730495610000000000000000000091900000000000000000000000000000873132010000000000000000000091887500000000000000000000000000939735770000000000000000000091875000000000000000000000000000782850640000000000000000000091862500000000000000000000000000834530400000000000000000000091850000000000000000000000000000774557330000000000000000000091837500000000000000000000000000733439030000000000000000000091825000000000000000000000000000786374250000000000000000000091812500000000000000000000000000807352290000000000000000000091800000000000000000000000000000732910680000000000000000000091787500000000000000000000000000725582480000000000000000000091775000000000000000000000000000732850300000000000000000000091762500000000000000000000000000748985190000000000000000000091750000000000000000000000000000794874870000000000000000000091737500000000000000000000000000811091740000000000000000000091725000000000000000000000000000819272470000000000000000000091712500000000000000000000000000750718480000000000000000000091700000000000000000000000000000739687600000000000000000000091687500000000000000000000000000699166680000000000000000000091675000000000000000000000000000688825310000000000000000000091662500000000000000000000000000726127810000000000000000000091650000000000000000000000000000746421270000000000000000000091637500000000000000000000000000759162900000000000000000000091625000000000000000000000000000769501830000000000000000000091612500000000000000000000000000754812860000000000000000000091600000000000000000000000000000691793230000000000000000000091587500000000000000000000000000739716600000000000000000000091575000000000000000000000000000778116530000000000000000000091562500000000000000000000000000767526100000000000000000000091550000000000000000000000000000743122090000000000000000000091537500000000000000000000000000791892920000000000000000000091525000000000000000000000000000737575000000000000000000000091512500000000000000000000000000675922160000000000000000000091500000000000000000000000000000686942180000000000000000000091487500000000000000000000000000725490490000000000000000000091475000000000000000000000000000692678200000000000000000000091462500000000000000000000000000713294450000000000000000000091450000000000000000000000000000719932870000000000000000000091437500000000000000000000000000774832270000000000000000000091425000000000000000000000000000777306240000000000000000000091412500000000000000000000000000740906940000000000000000000091400000000000000000000,
    784005060000000000000000000092987500000000000000000000000000739983920000000000000000000092975000000000000000000000000000800684510000000000000000000092962500000000000000000000000000761644700000000000000000000092950000000000000000000000000000774266350000000000000000000092937500000000000000000000000000753655300000000000000000000092925000000000000000000000000000743082990000000000000000000092912500000000000000000000000000761060650000000000000000000092900000000000000000000000000000723602100000000000000000000092887500000000000000000000000000773657210000000000000000000092875000000000000000000000000000808834850000000000000000000092862500000000000000000000000000750563580000000000000000000092850000000000000000000000000000734744060000000000000000000092837500000000000000000000000000734060520000000000000000000092825000000000000000000000000000730065270000000000000000000092812500000000000000000000000000755103670000000000000000000092800000000000000000000000000000750095680000000000000000000092787500000000000000000000000000772377790000000000000000000092775000000000000000000000000000783196060000000000000000000092762500000000000000000000000000786743880000000000000000000092750000000000000000000000000000757089150000000000000000000092737500000000000000000000000000745382440000000000000000000092725000000000000000000000000000786036680000000000000000000092712500000000000000000000000000786707490000000000000000000092700000000000000000000000000000748173370000000000000000000092687500000000000000000000000000774265140000000000000000000092675000000000000000000000000000806852330000000000000000000092662500000000000000000000000000776345490000000000000000000092650000000000000000000000000000769833170000000000000000000092637500000000000000000000000000788503690000000000000000000092625000000000000000000000000000751177640000000000000000000092612500000000000000000000000000752716690000000000000000000092600000000000000000000000000000804090950000000000000000000092587500000000000000000000000000768365660000000000000000000092575000000000000000000000000000703183270000000000000000000092562500000000000000000000000000721745780000000000000000000092550000000000000000000000000000795438170000000000000000000092537500000000000000000000000000756899410000000000000000000092525000000000000000000000000000757884880000000000000000000092512500000000000000000000000000716925010000000000000000000092500000000000000000000000000000754564220000000000000000000092487500000000000000000000000000857410250000000000000000000092475000000000000000000000000000786501080000000000000000000092462500000000000000000000000000782611670000000000000000000092450000000000000000000000000000824848140000000000000000000092437500000000000000000000000000745585160000000000000000000092425000000000000000000000000000742643370000000000000000000092412500000000000000000000000000746573200000000000000000000092400000000000000000000000000000777990090000000000000000000092387500000000000000000000000000736348370000000000000000000092375000000000000000000000000000757650280000000000000000000092362500000000000000000000000000742320170000000000000000000092350000000000000000000000000000765329300000000000000000000092337500000000000000000000000000796949800000000000000000000092325000000000000000000000000000764568070000000000000000000092312500000000000000000000000000762740830000000000000000000092300000000000000000000000000000748980360000000000000000000092287500000000000000000000000000811927060000000000000000000092275000000000000000000000000000800574760000000000000000000092262500000000000000000000000000747161190000000000000000000092250000000000000000000000000000723535730000000000000000000092237500000000000000000000000000697542660000000000000000000092225000000000000000000000000000738797240000000000000000000092212500000000000000000000000000753520010000000000000000000092200000000000000000000,
    788644720000000000000000000093787500000000000000000000000000789704260000000000000000000093775000000000000000000000000000776680570000000000000000000093762500000000000000000000000000761213750000000000000000000093750000000000000000000000000000704451330000000000000000000093737500000000000000000000000000731049180000000000000000000093725000000000000000000000000000776206770000000000000000000093712500000000000000000000000000746843000000000000000000000093700000000000000000000000000000721000650000000000000000000093687500000000000000000000000000728332450000000000000000000093675000000000000000000000000000725812630000000000000000000093662500000000000000000000000000736700470000000000000000000093650000000000000000000000000000786827760000000000000000000093637500000000000000000000000000805526550000000000000000000093625000000000000000000000000000812367990000000000000000000093612500000000000000000000000000809232490000000000000000000093600000000000000000000000000000701182340000000000000000000093587500000000000000000000000000754203420000000000000000000093575000000000000000000000000000737229230000000000000000000093562500000000000000000000000000742592260000000000000000000093550000000000000000000000000000748430880000000000000000000093537500000000000000000000000000732596580000000000000000000093525000000000000000000000000000702888770000000000000000000093512500000000000000000000000000750986870000000000000000000093500000000000000000000000000000809702310000000000000000000093487500000000000000000000000000839662790000000000000000000093475000000000000000000000000000828550780000000000000000000093462500000000000000000000000000780151400000000000000000000093450000000000000000000000000000749587700000000000000000000093437500000000000000000000000000746307620000000000000000000093425000000000000000000000000000727505820000000000000000000093412500000000000000000000000000702596050000000000000000000093400000000000000000000000000000768707650000000000000000000093387500000000000000000000000000779711230000000000000000000093375000000000000000000000000000698011350000000000000000000093362500000000000000000000000000742638880000000000000000000093350000000000000000000000000000706924950000000000000000000093337500000000000000000000000000746878920000000000000000000093325000000000000000000000000000789540380000000000000000000093312500000000000000000000000000830926320000000000000000000093300000000000000000000000000000838834360000000000000000000093287500000000000000000000000000739955740000000000000000000093275000000000000000000000000000701701770000000000000000000093262500000000000000000000000000727071320000000000000000000093250000000000000000000000000000712991330000000000000000000093237500000000000000000000000000789835570000000000000000000093225000000000000000000000000000764618790000000000000000000093212500000000000000000000000000757269810000000000000000000093200000000000000000000000000000798423930000000000000000000093187500000000000000000000000000774046070000000000000000000093175000000000000000000000000000746525870000000000000000000093162500000000000000000000000000735124680000000000000000000093150000000000000000000000000000694524520000000000000000000093137500000000000000000000000000776493420000000000000000000093125000000000000000000000000000824101610000000000000000000093112500000000000000000000000000769136800000000000000000000093100000000000000000000000000000743810940000000000000000000093087500000000000000000000000000746822310000000000000000000093075000000000000000000000000000801751650000000000000000000093062500000000000000000000000000732028090000000000000000000093050000000000000000000000000000757921160000000000000000000093037500000000000000000000000000740749910000000000000000000093025000000000000000000000000000729316740000000000000000000093012500000000000000000000000000750484600000000000000000000093000000000000000000000,
    766394950000000000000000000094587500000000000000000000000000801521500000000000000000000094575000000000000000000000000000889694610000000000000000000094562500000000000000000000000000806842260000000000000000000094550000000000000000000000000000882551380000000000000000000094537500000000000000000000000001010995400000000000000000000094525000000000000000000000000000775596750000000000000000000094512500000000000000000000000000799938430000000000000000000094500000000000000000000000000000780606970000000000000000000094487500000000000000000000000000736404260000000000000000000094475000000000000000000000000000749340260000000000000000000094462500000000000000000000000000715547520000000000000000000094450000000000000000000000000000769892580000000000000000000094437500000000000000000000000000858605810000000000000000000094425000000000000000000000000000741855340000000000000000000094412500000000000000000000000000739428390000000000000000000094400000000000000000000000000000763089030000000000000000000094387500000000000000000000000000813537290000000000000000000094375000000000000000000000000000776237960000000000000000000094362500000000000000000000000000751465870000000000000000000094350000000000000000000000000000754666390000000000000000000094337500000000000000000000000000792757470000000000000000000094325000000000000000000000000000781644460000000000000000000094312500000000000000000000000000797145480000000000000000000094300000000000000000000000000000822138330000000000000000000094287500000000000000000000000000714063250000000000000000000094275000000000000000000000000000691430140000000000000000000094262500000000000000000000000000709686100000000000000000000094250000000000000000000000000000727106340000000000000000000094237500000000000000000000000000787791970000000000000000000094225000000000000000000000000000794164840000000000000000000094212500000000000000000000000000777240530000000000000000000094200000000000000000000000000000750321160000000000000000000094187500000000000000000000000000765899370000000000000000000094175000000000000000000000000000716365580000000000000000000094162500000000000000000000000000736862530000000000000000000094150000000000000000000000000000777851520000000000000000000094137500000000000000000000000000805733040000000000000000000094125000000000000000000000000000785262440000000000000000000094112500000000000000000000000000745155780000000000000000000094100000000000000000000000000000773089830000000000000000000094087500000000000000000000000000754785620000000000000000000094075000000000000000000000000000747468440000000000000000000094062500000000000000000000000000751287000000000000000000000094050000000000000000000000000000717397830000000000000000000094037500000000000000000000000000755344640000000000000000000094025000000000000000000000000000743381450000000000000000000094012500000000000000000000000000709443640000000000000000000094000000000000000000000000000000718336160000000000000000000093987500000000000000000000000000774652640000000000000000000093975000000000000000000000000000778234310000000000000000000093962500000000000000000000000000773998080000000000000000000093950000000000000000000000000000775921970000000000000000000093937500000000000000000000000000825526670000000000000000000093925000000000000000000000000000797147090000000000000000000093912500000000000000000000000000711503480000000000000000000093900000000000000000000000000000715108710000000000000000000093887500000000000000000000000000771282800000000000000000000093875000000000000000000000000000755870980000000000000000000093862500000000000000000000000000771846490000000000000000000093850000000000000000000000000000812113540000000000000000000093837500000000000000000000000000794545250000000000000000000093825000000000000000000000000000747671550000000000000000000093812500000000000000000000000000766873650000000000000000000093800000000000000000000,
    865176110000000000000000000095387500000000000000000000000000804395880000000000000000000095375000000000000000000000000000779577100000000000000000000095362500000000000000000000000000698133770000000000000000000095350000000000000000000000000000745964040000000000000000000095337500000000000000000000000000776905950000000000000000000095325000000000000000000000000000835851680000000000000000000095312500000000000000000000000000851722680000000000000000000095300000000000000000000000000000796153890000000000000000000095287500000000000000000000000000818390010000000000000000000095275000000000000000000000000000771913610000000000000000000095262500000000000000000000000000763282190000000000000000000095250000000000000000000000000000773464930000000000000000000095237500000000000000000000000000761629060000000000000000000095225000000000000000000000000000723417020000000000000000000095212500000000000000000000000000657412070000000000000000000095200000000000000000000000000000718304630000000000000000000095187500000000000000000000000000763328630000000000000000000095175000000000000000000000000000741541800000000000000000000095162500000000000000000000000000703633120000000000000000000095150000000000000000000000000000764855680000000000000000000095137500000000000000000000000000731330300000000000000000000095125000000000000000000000000000793396860000000000000000000095112500000000000000000000000000789371560000000000000000000095100000000000000000000000000000792455300000000000000000000095087500000000000000000000000000790535840000000000000000000095075000000000000000000000000000797565580000000000000000000095062500000000000000000000000000783054510000000000000000000095050000000000000000000000000000706223660000000000000000000095037500000000000000000000000000749064110000000000000000000095025000000000000000000000000000819177120000000000000000000095012500000000000000000000000000812816070000000000000000000095000000000000000000000000000000799545240000000000000000000094987500000000000000000000000000754269520000000000000000000094975000000000000000000000000000747559580000000000000000000094962500000000000000000000000000801171660000000000000000000094950000000000000000000000000000768533690000000000000000000094937500000000000000000000000000735866680000000000000000000094925000000000000000000000000000765212560000000000000000000094912500000000000000000000000000784924150000000000000000000094900000000000000000000000000000761575720000000000000000000094887500000000000000000000000000742979840000000000000000000094875000000000000000000000000000778792450000000000000000000094862500000000000000000000000000843590490000000000000000000094850000000000000000000000000000801933260000000000000000000094837500000000000000000000000000806617600000000000000000000094825000000000000000000000000000810549700000000000000000000094812500000000000000000000000000783958530000000000000000000094800000000000000000000000000000786551600000000000000000000094787500000000000000000000000000818300820000000000000000000094775000000000000000000000000000837040060000000000000000000094762500000000000000000000000000842966970000000000000000000094750000000000000000000000000000848730220000000000000000000094737500000000000000000000000000779078340000000000000000000094725000000000000000000000000000842708500000000000000000000094712500000000000000000000000000788398620000000000000000000094700000000000000000000000000000787983800000000000000000000094687500000000000000000000000000794856840000000000000000000094675000000000000000000000000000779485200000000000000000000094662500000000000000000000000000779730720000000000000000000094650000000000000000000000000000783113770000000000000000000094637500000000000000000000000000786566290000000000000000000094625000000000000000000000000000791034030000000000000000000094612500000000000000000000000000870593080000000000000000000094600000000000000000000,
    797628220000000000000000000096187500000000000000000000000000742439750000000000000000000096175000000000000000000000000000755437760000000000000000000096162500000000000000000000000000842332540000000000000000000096150000000000000000000000000000821991520000000000000000000096137500000000000000000000000000845211320000000000000000000096125000000000000000000000000000812698320000000000000000000096112500000000000000000000000000731905360000000000000000000096100000000000000000000000000000663143650000000000000000000096087500000000000000000000000000741594960000000000000000000096075000000000000000000000000000820825020000000000000000000096062500000000000000000000000000783188910000000000000000000096050000000000000000000000000000812041070000000000000000000096037500000000000000000000000000819169550000000000000000000096025000000000000000000000000000795714970000000000000000000096012500000000000000000000000000797696670000000000000000000096000000000000000000000000000000825419670000000000000000000095987500000000000000000000000000875169450000000000000000000095975000000000000000000000000000872505380000000000000000000095962500000000000000000000000000818254620000000000000000000095950000000000000000000000000000807240580000000000000000000095937500000000000000000000000000808195060000000000000000000095925000000000000000000000000000762088540000000000000000000095912500000000000000000000000000755137130000000000000000000095900000000000000000000000000000812339850000000000000000000095887500000000000000000000000000723008220000000000000000000095875000000000000000000000000000722112980000000000000000000095862500000000000000000000000000768114120000000000000000000095850000000000000000000000000000773288300000000000000000000095837500000000000000000000000000776693140000000000000000000095825000000000000000000000000000813951830000000000000000000095812500000000000000000000000000780098260000000000000000000095800000000000000000000000000000757947560000000000000000000095787500000000000000000000000000738222870000000000000000000095775000000000000000000000000000752380660000000000000000000095762500000000000000000000000000779082430000000000000000000095750000000000000000000000000000781477200000000000000000000095737500000000000000000000000000898023270000000000000000000095725000000000000000000000000000847747020000000000000000000095712500000000000000000000000000828672150000000000000000000095700000000000000000000000000000775636920000000000000000000095687500000000000000000000000000755591320000000000000000000095675000000000000000000000000000733118790000000000000000000095662500000000000000000000000000681811620000000000000000000095650000000000000000000000000000766718020000000000000000000095637500000000000000000000000000800166910000000000000000000095625000000000000000000000000000737420090000000000000000000095612500000000000000000000000000756178100000000000000000000095600000000000000000000000000000763122040000000000000000000095587500000000000000000000000000766392640000000000000000000095575000000000000000000000000000815304860000000000000000000095562500000000000000000000000000787601310000000000000000000095550000000000000000000000000000748421070000000000000000000095537500000000000000000000000000729870220000000000000000000095525000000000000000000000000000756905600000000000000000000095512500000000000000000000000000775153700000000000000000000095500000000000000000000000000000777393270000000000000000000095487500000000000000000000000000819349970000000000000000000095475000000000000000000000000000802081710000000000000000000095462500000000000000000000000000802046150000000000000000000095450000000000000000000000000000811386540000000000000000000095437500000000000000000000000000793890040000000000000000000095425000000000000000000000000000877516110000000000000000000095412500000000000000000000000000852712880000000000000000000095400000000000000000000,
    747753070000000000000000000096987500000000000000000000000000851411780000000000000000000096975000000000000000000000000000847654630000000000000000000096962500000000000000000000000000784616160000000000000000000096950000000000000000000000000000766738650000000000000000000096937500000000000000000000000000781415010000000000000000000096925000000000000000000000000000748296050000000000000000000096912500000000000000000000000000779452090000000000000000000096900000000000000000000000000000776220950000000000000000000096887500000000000000000000000000753115990000000000000000000096875000000000000000000000000000818763850000000000000000000096862500000000000000000000000000777091440000000000000000000096850000000000000000000000000000751638200000000000000000000096837500000000000000000000000000731118010000000000000000000096825000000000000000000000000000789535290000000000000000000096812500000000000000000000000000804323610000000000000000000096800000000000000000000000000000745851580000000000000000000096787500000000000000000000000000808157910000000000000000000096775000000000000000000000000000794909850000000000000000000096762500000000000000000000000000825798850000000000000000000096750000000000000000000000000000830258130000000000000000000096737500000000000000000000000000768749760000000000000000000096725000000000000000000000000000722910930000000000000000000096712500000000000000000000000000736758820000000000000000000096700000000000000000000000000000855222400000000000000000000096687500000000000000000000000000855855280000000000000000000096675000000000000000000000000000821811740000000000000000000096662500000000000000000000000000753968760000000000000000000096650000000000000000000000000000720023440000000000000000000096637500000000000000000000000000708705050000000000000000000096625000000000000000000000000000797849460000000000000000000096612500000000000000000000000000809505380000000000000000000096600000000000000000000000000000783272590000000000000000000096587500000000000000000000000000718138510000000000000000000096575000000000000000000000000000711236850000000000000000000096562500000000000000000000000000731425380000000000000000000096550000000000000000000000000000766754060000000000000000000096537500000000000000000000000000838215050000000000000000000096525000000000000000000000000000773309680000000000000000000096512500000000000000000000000000721353900000000000000000000096500000000000000000000000000000738018290000000000000000000096487500000000000000000000000000731416710000000000000000000096475000000000000000000000000000699922480000000000000000000096462500000000000000000000000000752548960000000000000000000096450000000000000000000000000000787122840000000000000000000096437500000000000000000000000000813008580000000000000000000096425000000000000000000000000000813379280000000000000000000096412500000000000000000000000000777669400000000000000000000096400000000000000000000000000000759845800000000000000000000096387500000000000000000000000000815661670000000000000000000096375000000000000000000000000000757326770000000000000000000096362500000000000000000000000000779065880000000000000000000096350000000000000000000000000000788213840000000000000000000096337500000000000000000000000000827645820000000000000000000096325000000000000000000000000000775546700000000000000000000096312500000000000000000000000000725109370000000000000000000096300000000000000000000000000000718526370000000000000000000096287500000000000000000000000000718474920000000000000000000096275000000000000000000000000000766209520000000000000000000096262500000000000000000000000000784622280000000000000000000096250000000000000000000000000000775847500000000000000000000096237500000000000000000000000000768146100000000000000000000096225000000000000000000000000000833571700000000000000000000096212500000000000000000000000000863903490000000000000000000096200000000000000000000,
    855014200000000000000000000097787500000000000000000000000000803315200000000000000000000097775000000000000000000000000000781133800000000000000000000097762500000000000000000000000000800037590000000000000000000097750000000000000000000000000000747144430000000000000000000097737500000000000000000000000000719944050000000000000000000097725000000000000000000000000000707462580000000000000000000097712500000000000000000000000000790313690000000000000000000097700000000000000000000000000000847334830000000000000000000097687500000000000000000000000000823347490000000000000000000097675000000000000000000000000000761973040000000000000000000097662500000000000000000000000000797948760000000000000000000097650000000000000000000000000000787096230000000000000000000097637500000000000000000000000000748233710000000000000000000097625000000000000000000000000000836086430000000000000000000097612500000000000000000000000000882796390000000000000000000097600000000000000000000000000000811934680000000000000000000097587500000000000000000000000000793069930000000000000000000097575000000000000000000000000000750587690000000000000000000097562500000000000000000000000000822579090000000000000000000097550000000000000000000000000000827303270000000000000000000097537500000000000000000000000000810696630000000000000000000097525000000000000000000000000000808884080000000000000000000097512500000000000000000000000000755071770000000000000000000097500000000000000000000000000000767186960000000000000000000097487500000000000000000000000000839449630000000000000000000097475000000000000000000000000000844625020000000000000000000097462500000000000000000000000000837387500000000000000000000097450000000000000000000000000000801985010000000000000000000097437500000000000000000000000000822400900000000000000000000097425000000000000000000000000000817158800000000000000000000097412500000000000000000000000000772232990000000000000000000097400000000000000000000000000000806408240000000000000000000097387500000000000000000000000000862396660000000000000000000097375000000000000000000000000000860578940000000000000000000097362500000000000000000000000000787889020000000000000000000097350000000000000000000000000000718556330000000000000000000097337500000000000000000000000000765922580000000000000000000097325000000000000000000000000000798329380000000000000000000097312500000000000000000000000000821358830000000000000000000097300000000000000000000000000000793922830000000000000000000097287500000000000000000000000000772675190000000000000000000097275000000000000000000000000000761023610000000000000000000097262500000000000000000000000000718076150000000000000000000097250000000000000000000000000000815962500000000000000000000097237500000000000000000000000000801869670000000000000000000097225000000000000000000000000000722333190000000000000000000097212500000000000000000000000000717813270000000000000000000097200000000000000000000000000000698705970000000000000000000097187500000000000000000000000000761486640000000000000000000097175000000000000000000000000000739164440000000000000000000097162500000000000000000000000000700995930000000000000000000097150000000000000000000000000000727070280000000000000000000097137500000000000000000000000000758901370000000000000000000097125000000000000000000000000000773128790000000000000000000097112500000000000000000000000000785607630000000000000000000097100000000000000000000000000000841009300000000000000000000097087500000000000000000000000000820272680000000000000000000097075000000000000000000000000000855957750000000000000000000097062500000000000000000000000000862433960000000000000000000097050000000000000000000000000000788230640000000000000000000097037500000000000000000000000000775727300000000000000000000097025000000000000000000000000000808664450000000000000000000097012500000000000000000000000000761204070000000000000000000097000000000000000000000,
    795546710000000000000000000098587500000000000000000000000000807338820000000000000000000098575000000000000000000000000000829209410000000000000000000098562500000000000000000000000000845224580000000000000000000098550000000000000000000000000000843624500000000000000000000098537500000000000000000000000000848775170000000000000000000098525000000000000000000000000000860011820000000000000000000098512500000000000000000000000000804922680000000000000000000098500000000000000000000000000000796913900000000000000000000098487500000000000000000000000000781846790000000000000000000098475000000000000000000000000000745901760000000000000000000098462500000000000000000000000000771507350000000000000000000098450000000000000000000000000000758130940000000000000000000098437500000000000000000000000000743559550000000000000000000098425000000000000000000000000000803192760000000000000000000098412500000000000000000000000000855163240000000000000000000098400000000000000000000000000000850168960000000000000000000098387500000000000000000000000000854167830000000000000000000098375000000000000000000000000000808565080000000000000000000098362500000000000000000000000000762861980000000000000000000098350000000000000000000000000000780377870000000000000000000098337500000000000000000000000000803557540000000000000000000098325000000000000000000000000000778928580000000000000000000098312500000000000000000000000000847249400000000000000000000098300000000000000000000000000000889778090000000000000000000098287500000000000000000000000000843263770000000000000000000098275000000000000000000000000000824894960000000000000000000098262500000000000000000000000000815586270000000000000000000098250000000000000000000000000000808657690000000000000000000098237500000000000000000000000000816144730000000000000000000098225000000000000000000000000000869490320000000000000000000098212500000000000000000000000000804010330000000000000000000098200000000000000000000000000000837170920000000000000000000098187500000000000000000000000000778624690000000000000000000098175000000000000000000000000000742542770000000000000000000098162500000000000000000000000000829180110000000000000000000098150000000000000000000000000000752321930000000000000000000098137500000000000000000000000000732039960000000000000000000098125000000000000000000000000000798503590000000000000000000098112500000000000000000000000000816504810000000000000000000098100000000000000000000000000000819022510000000000000000000098087500000000000000000000000000752314870000000000000000000098075000000000000000000000000000797777960000000000000000000098062500000000000000000000000000857514350000000000000000000098050000000000000000000000000000841618780000000000000000000098037500000000000000000000000000830091930000000000000000000098025000000000000000000000000000767075900000000000000000000098012500000000000000000000000000776117950000000000000000000098000000000000000000000000000000812264030000000000000000000097987500000000000000000000000000781145450000000000000000000097975000000000000000000000000000793992880000000000000000000097962500000000000000000000000000772227350000000000000000000097950000000000000000000000000000798324410000000000000000000097937500000000000000000000000000739094870000000000000000000097925000000000000000000000000000747239850000000000000000000097912500000000000000000000000000819812830000000000000000000097900000000000000000000000000000786125730000000000000000000097887500000000000000000000000000782957470000000000000000000097875000000000000000000000000000809957650000000000000000000097862500000000000000000000000000780362270000000000000000000097850000000000000000000000000000809116520000000000000000000097837500000000000000000000000000782757170000000000000000000097825000000000000000000000000000738862960000000000000000000097812500000000000000000000000000814386240000000000000000000097800000000000000000000,
    792292760000000000000000000099387500000000000000000000000000782131530000000000000000000099375000000000000000000000000000797870040000000000000000000099362500000000000000000000000000853669630000000000000000000099350000000000000000000000000000826885920000000000000000000099337500000000000000000000000000846545240000000000000000000099325000000000000000000000000000794858640000000000000000000099312500000000000000000000000000768745250000000000000000000099300000000000000000000000000000749539890000000000000000000099287500000000000000000000000000730521270000000000000000000099275000000000000000000000000000795661530000000000000000000099262500000000000000000000000000849972440000000000000000000099250000000000000000000000000000840837160000000000000000000099237500000000000000000000000000828471640000000000000000000099225000000000000000000000000000854862410000000000000000000099212500000000000000000000000000805404230000000000000000000099200000000000000000000000000000818414040000000000000000000099187500000000000000000000000000875366550000000000000000000099175000000000000000000000000000840923080000000000000000000099162500000000000000000000000000793170450000000000000000000099150000000000000000000000000000781366560000000000000000000099137500000000000000000000000000799703270000000000000000000099125000000000000000000000000000837839170000000000000000000099112500000000000000000000000000804969160000000000000000000099100000000000000000000000000000746029820000000000000000000099087500000000000000000000000000751514110000000000000000000099075000000000000000000000000000784361980000000000000000000099062500000000000000000000000000829097410000000000000000000099050000000000000000000000000000840006890000000000000000000099037500000000000000000000000000844212620000000000000000000099025000000000000000000000000000760421500000000000000000000099012500000000000000000000000000789639750000000000000000000099000000000000000000000000000000785289960000000000000000000098987500000000000000000000000000760144810000000000000000000098975000000000000000000000000000802206000000000000000000000098962500000000000000000000000000794398000000000000000000000098950000000000000000000000000000889995250000000000000000000098937500000000000000000000000000848110600000000000000000000098925000000000000000000000000000786079110000000000000000000098912500000000000000000000000000818785840000000000000000000098900000000000000000000000000000834239950000000000000000000098887500000000000000000000000000827903000000000000000000000098875000000000000000000000000000827599130000000000000000000098862500000000000000000000000000789139970000000000000000000098850000000000000000000000000000758702120000000000000000000098837500000000000000000000000000763791990000000000000000000098825000000000000000000000000000709802830000000000000000000098812500000000000000000000000000820674950000000000000000000098800000000000000000000000000000858879680000000000000000000098787500000000000000000000000000843614670000000000000000000098775000000000000000000000000000827141520000000000000000000098762500000000000000000000000000849461260000000000000000000098750000000000000000000000000000797924950000000000000000000098737500000000000000000000000000824584760000000000000000000098725000000000000000000000000000883172640000000000000000000098712500000000000000000000000000873791520000000000000000000098700000000000000000000000000000774247800000000000000000000098687500000000000000000000000000780102780000000000000000000098675000000000000000000000000000753726100000000000000000000098662500000000000000000000000000755271850000000000000000000098650000000000000000000000000000731435930000000000000000000098637500000000000000000000000000731374650000000000000000000098625000000000000000000000000000735471920000000000000000000098612500000000000000000000000000792119630000000000000000000098600000000000000000000,
    783231790000000000000000000100187500000000000000000000000000771494660000000000000000000100175000000000000000000000000000775533560000000000000000000100162500000000000000000000000000818690800000000000000000000100150000000000000000000000000000770830710000000000000000000100137500000000000000000000000000737948670000000000000000000100125000000000000000000000000000736382320000000000000000000100112500000000000000000000000000750277210000000000000000000100100000000000000000000000000000735728370000000000000000000100087500000000000000000000000000773282560000000000000000000100075000000000000000000000000000777092000000000000000000000100062500000000000000000000000000787683430000000000000000000100050000000000000000000000000000815908570000000000000000000100037500000000000000000000000000864819790000000000000000000100025000000000000000000000000000867860080000000000000000000100012500000000000000000000000000923561220000000000000000000100000000000000000000000000000001437398500000000000000000000099987500000000000000000000000001463752300000000000000000000099975000000000000000000000000001092671700000000000000000000099962500000000000000000000000000809334260000000000000000000099950000000000000000000000000000737463570000000000000000000099937500000000000000000000000000780658700000000000000000000099925000000000000000000000000000795317940000000000000000000099912500000000000000000000000000805654460000000000000000000099900000000000000000000000000000844223670000000000000000000099887500000000000000000000000000772646740000000000000000000099875000000000000000000000000000785691550000000000000000000099862500000000000000000000000000729006030000000000000000000099850000000000000000000000000000768769320000000000000000000099837500000000000000000000000000741460120000000000000000000099825000000000000000000000000000737627490000000000000000000099812500000000000000000000000000753898500000000000000000000099800000000000000000000000000000896716640000000000000000000099787500000000000000000000000000865150030000000000000000000099775000000000000000000000000000878229680000000000000000000099762500000000000000000000000000804838800000000000000000000099750000000000000000000000000000750061950000000000000000000099737500000000000000000000000000843293560000000000000000000099725000000000000000000000000000836127020000000000000000000099712500000000000000000000000000782026140000000000000000000099700000000000000000000000000000819743270000000000000000000099687500000000000000000000000000779987850000000000000000000099675000000000000000000000000000768901190000000000000000000099662500000000000000000000000000824826170000000000000000000099650000000000000000000000000000778411590000000000000000000099637500000000000000000000000000764814870000000000000000000099625000000000000000000000000000841119970000000000000000000099612500000000000000000000000000817675260000000000000000000099600000000000000000000000000000798268890000000000000000000099587500000000000000000000000000842740640000000000000000000099575000000000000000000000000000841194830000000000000000000099562500000000000000000000000000803064380000000000000000000099550000000000000000000000000000822901990000000000000000000099537500000000000000000000000000819051720000000000000000000099525000000000000000000000000000817809900000000000000000000099512500000000000000000000000000849973550000000000000000000099500000000000000000000000000000843956470000000000000000000099487500000000000000000000000000799778580000000000000000000099475000000000000000000000000000855262290000000000000000000099462500000000000000000000000000882465150000000000000000000099450000000000000000000000000000843739590000000000000000000099437500000000000000000000000000875358280000000000000000000099425000000000000000000000000000833765280000000000000000000099412500000000000000000000000000836022830000000000000000000099400000000000000000000,
    799590300000000000000000000100987500000000000000000000000000750402060000000000000000000100975000000000000000000000000000802036570000000000000000000100962500000000000000000000000000788829450000000000000000000100950000000000000000000000000000769712320000000000000000000100937500000000000000000000000000776078060000000000000000000100925000000000000000000000000000957251110000000000000000000100912500000000000000000000000000936236530000000000000000000100900000000000000000000000000000818381680000000000000000000100887500000000000000000000000000813646580000000000000000000100875000000000000000000000000000741557920000000000000000000100862500000000000000000000000000786783120000000000000000000100850000000000000000000000000000765855280000000000000000000100837500000000000000000000000000796007410000000000000000000100825000000000000000000000000000811250060000000000000000000100812500000000000000000000000000775085990000000000000000000100800000000000000000000000000000758124270000000000000000000100787500000000000000000000000000738774230000000000000000000100775000000000000000000000000000802750680000000000000000000100762500000000000000000000000000798055750000000000000000000100750000000000000000000000000000826180370000000000000000000100737500000000000000000000000000834063450000000000000000000100725000000000000000000000000000862277520000000000000000000100712500000000000000000000000000855673070000000000000000000100700000000000000000000000000000935602120000000000000000000100687500000000000000000000000001907786400000000000000000000100675000000000000000000000000001662107100000000000000000000100662500000000000000000000000001342199000000000000000000000100650000000000000000000000000001746130900000000000000000000100637500000000000000000000000000945008280000000000000000000100625000000000000000000000000000830480550000000000000000000100612500000000000000000000000000878309170000000000000000000100600000000000000000000000000000865135670000000000000000000100587500000000000000000000000000758141020000000000000000000100575000000000000000000000000000768487500000000000000000000100562500000000000000000000000000837203660000000000000000000100550000000000000000000000000000944479500000000000000000000100537500000000000000000000000000880698210000000000000000000100525000000000000000000000000000773847230000000000000000000100512500000000000000000000000000722319100000000000000000000100500000000000000000000000000000799549900000000000000000000100487500000000000000000000000000893344560000000000000000000100475000000000000000000000000001593025800000000000000000000100462500000000000000000000000001533552800000000000000000000100450000000000000000000000000000866915030000000000000000000100437500000000000000000000000000773846450000000000000000000100425000000000000000000000000000772430940000000000000000000100412500000000000000000000000000813749220000000000000000000100400000000000000000000000000000980806660000000000000000000100387500000000000000000000000001080385900000000000000000000100375000000000000000000000000000856926340000000000000000000100362500000000000000000000000000797600590000000000000000000100350000000000000000000000000000762336230000000000000000000100337500000000000000000000000000818218230000000000000000000100325000000000000000000000000000792110540000000000000000000100312500000000000000000000000000746476580000000000000000000100300000000000000000000000000000753270810000000000000000000100287500000000000000000000000000837835480000000000000000000100275000000000000000000000000000850990170000000000000000000100262500000000000000000000000000844315950000000000000000000100250000000000000000000000000000852871890000000000000000000100237500000000000000000000000000853704260000000000000000000100225000000000000000000000000000850607420000000000000000000100212500000000000000000000000000813312250000000000000000000100200000000000000000000,
    916384350000000000000000000101787500000000000000000000000000966666740000000000000000000101775000000000000000000000000000904200800000000000000000000101762500000000000000000000000000848362600000000000000000000101750000000000000000000000000000871224120000000000000000000101737500000000000000000000000000819503810000000000000000000101725000000000000000000000000000778734130000000000000000000101712500000000000000000000000000795684490000000000000000000101700000000000000000000000000000802468830000000000000000000101687500000000000000000000000000810225460000000000000000000101675000000000000000000000000000796767540000000000000000000101662500000000000000000000000001135715800000000000000000000101650000000000000000000000000001086183600000000000000000000101637500000000000000000000000001227621300000000000000000000101625000000000000000000000000001107992900000000000000000000101612500000000000000000000000000824194140000000000000000000101600000000000000000000000000000777719080000000000000000000101587500000000000000000000000000808696600000000000000000000101575000000000000000000000000000812416520000000000000000000101562500000000000000000000000000846358990000000000000000000101550000000000000000000000000000881795680000000000000000000101537500000000000000000000000000880478550000000000000000000101525000000000000000000000000000846543550000000000000000000101512500000000000000000000000000820238790000000000000000000101500000000000000000000000000000934494620000000000000000000101487500000000000000000000000001077223500000000000000000000101475000000000000000000000000001206663700000000000000000000101462500000000000000000000000000961259840000000000000000000101450000000000000000000000000000793129080000000000000000000101437500000000000000000000000000813218280000000000000000000101425000000000000000000000000000896840390000000000000000000101412500000000000000000000000000860823120000000000000000000101400000000000000000000000000000821093300000000000000000000101387500000000000000000000000000833546130000000000000000000101375000000000000000000000000000789528600000000000000000000101362500000000000000000000000000811545240000000000000000000101350000000000000000000000000000851830070000000000000000000101337500000000000000000000000000828229630000000000000000000101325000000000000000000000000000814256690000000000000000000101312500000000000000000000000000799606990000000000000000000101300000000000000000000000000000874693220000000000000000000101287500000000000000000000000001273728100000000000000000000101275000000000000000000000000001954769400000000000000000000101262500000000000000000000000002601014200000000000000000000101250000000000000000000000000003114386600000000000000000000101237500000000000000000000000001136216400000000000000000000101225000000000000000000000000000812640620000000000000000000101212500000000000000000000000000896653290000000000000000000101200000000000000000000000000000869630850000000000000000000101187500000000000000000000000000771568710000000000000000000101175000000000000000000000000000752149270000000000000000000101162500000000000000000000000000793210420000000000000000000101150000000000000000000000000000860425760000000000000000000101137500000000000000000000000000912522030000000000000000000101125000000000000000000000000001001457800000000000000000000101112500000000000000000000000000898057000000000000000000000101100000000000000000000000000000910463490000000000000000000101087500000000000000000000000000892480110000000000000000000101075000000000000000000000000000865806230000000000000000000101062500000000000000000000000000811732220000000000000000000101050000000000000000000000000000812054620000000000000000000101037500000000000000000000000000841102950000000000000000000101025000000000000000000000000000814008500000000000000000000101012500000000000000000000000000884258700000000000000000000101000000000000000000000,
    818732880000000000000000000102587500000000000000000000000000803433280000000000000000000102575000000000000000000000000000798555240000000000000000000102562500000000000000000000000000849144560000000000000000000102550000000000000000000000000000880100480000000000000000000102537500000000000000000000000001058386900000000000000000000102525000000000000000000000000002154783200000000000000000000102512500000000000000000000000002646133500000000000000000000102500000000000000000000000000007116150400000000000000000000102487500000000000000000000000052978732000000000000000000000102475000000000000000000000000064619242000000000000000000000102462500000000000000000000000017831693000000000000000000000102450000000000000000000000000002087640300000000000000000000102437500000000000000000000000001034548000000000000000000000102425000000000000000000000000000846601320000000000000000000102412500000000000000000000000000747366050000000000000000000102400000000000000000000000000000793582050000000000000000000102387500000000000000000000000000799324810000000000000000000102375000000000000000000000000000855993260000000000000000000102362500000000000000000000000000814323880000000000000000000102350000000000000000000000000001091653000000000000000000000102337500000000000000000000000001175654400000000000000000000102325000000000000000000000000000823812790000000000000000000102312500000000000000000000000000782708070000000000000000000102300000000000000000000000000000841257260000000000000000000102287500000000000000000000000000877071050000000000000000000102275000000000000000000000000000798108330000000000000000000102262500000000000000000000000000806273940000000000000000000102250000000000000000000000000000840625840000000000000000000102237500000000000000000000000000907214600000000000000000000102225000000000000000000000000000927999550000000000000000000102212500000000000000000000000001759217700000000000000000000102200000000000000000000000000001441601800000000000000000000102187500000000000000000000000000836376180000000000000000000102175000000000000000000000000000862792830000000000000000000102162500000000000000000000000000849159240000000000000000000102150000000000000000000000000000916789630000000000000000000102137500000000000000000000000000833529870000000000000000000102125000000000000000000000000000841757910000000000000000000102112500000000000000000000000000824694580000000000000000000102100000000000000000000000000000847681320000000000000000000102087500000000000000000000000000911972430000000000000000000102075000000000000000000000000000921542300000000000000000000102062500000000000000000000000000890439160000000000000000000102050000000000000000000000000000880521740000000000000000000102037500000000000000000000000000888599430000000000000000000102025000000000000000000000000000827198210000000000000000000102012500000000000000000000000000877211180000000000000000000102000000000000000000000000000000874018710000000000000000000101987500000000000000000000000000805754880000000000000000000101975000000000000000000000000000811067040000000000000000000101962500000000000000000000000000883460400000000000000000000101950000000000000000000000000000836740470000000000000000000101937500000000000000000000000000828683430000000000000000000101925000000000000000000000000000832672050000000000000000000101912500000000000000000000000000806892130000000000000000000101900000000000000000000000000000820375880000000000000000000101887500000000000000000000000000784865370000000000000000000101875000000000000000000000000001108276300000000000000000000101862500000000000000000000000003245113400000000000000000000101850000000000000000000000000003688821400000000000000000000101837500000000000000000000000001192210100000000000000000000101825000000000000000000000000000774542050000000000000000000101812500000000000000000000000000838625700000000000000000000101800000000000000000000,
    897987450000000000000000000103387500000000000000000000000000836960740000000000000000000103375000000000000000000000000000772722430000000000000000000103362500000000000000000000000000763920920000000000000000000103350000000000000000000000000000813877600000000000000000000103337500000000000000000000000000881576080000000000000000000103325000000000000000000000000000897367750000000000000000000103312500000000000000000000000000882935450000000000000000000103300000000000000000000000000000913207580000000000000000000103287500000000000000000000000000855708490000000000000000000103275000000000000000000000000000820278100000000000000000000103262500000000000000000000000000858255620000000000000000000103250000000000000000000000000000872135230000000000000000000103237500000000000000000000000000826000930000000000000000000103225000000000000000000000000000855556780000000000000000000103212500000000000000000000000000831686520000000000000000000103200000000000000000000000000000834864510000000000000000000103187500000000000000000000000000824665610000000000000000000103175000000000000000000000000000771774570000000000000000000103162500000000000000000000000000776452450000000000000000000103150000000000000000000000000000814237680000000000000000000103137500000000000000000000000000798356440000000000000000000103125000000000000000000000000000792490020000000000000000000103112500000000000000000000000000818135100000000000000000000103100000000000000000000000000000781220480000000000000000000103087500000000000000000000000000833132430000000000000000000103075000000000000000000000000000795912940000000000000000000103062500000000000000000000000000764740520000000000000000000103050000000000000000000000000000816779850000000000000000000103037500000000000000000000000000831947260000000000000000000103025000000000000000000000000000872622230000000000000000000103012500000000000000000000000000830328290000000000000000000103000000000000000000000000000000827249760000000000000000000102987500000000000000000000000000787195030000000000000000000102975000000000000000000000000000824668880000000000000000000102962500000000000000000000000000854519120000000000000000000102950000000000000000000000000000869314920000000000000000000102937500000000000000000000000000864732080000000000000000000102925000000000000000000000000000777835260000000000000000000102912500000000000000000000000000775144810000000000000000000102900000000000000000000000000000784778260000000000000000000102887500000000000000000000000000824392340000000000000000000102875000000000000000000000000000887586210000000000000000000102862500000000000000000000000000871300500000000000000000000102850000000000000000000000000000829930940000000000000000000102837500000000000000000000000000833110740000000000000000000102825000000000000000000000000000808493120000000000000000000102812500000000000000000000000000775687750000000000000000000102800000000000000000000000000000851299010000000000000000000102787500000000000000000000000000867423910000000000000000000102775000000000000000000000000000859209090000000000000000000102762500000000000000000000000000865500000000000000000000000102750000000000000000000000000000832392510000000000000000000102737500000000000000000000000000842898790000000000000000000102725000000000000000000000000000852043920000000000000000000102712500000000000000000000000000868114200000000000000000000102700000000000000000000000000000796362400000000000000000000102687500000000000000000000000000804034770000000000000000000102675000000000000000000000000000906369570000000000000000000102662500000000000000000000000000936971280000000000000000000102650000000000000000000000000000880591570000000000000000000102637500000000000000000000000000890370580000000000000000000102625000000000000000000000000000885024660000000000000000000102612500000000000000000000000000902970580000000000000000000102600000000000000000000,
    915694790000000000000000000104187500000000000000000000000000909680640000000000000000000104175000000000000000000000000000834330010000000000000000000104162500000000000000000000000000812770690000000000000000000104150000000000000000000000000000793752030000000000000000000104137500000000000000000000000000812370740000000000000000000104125000000000000000000000000000813858610000000000000000000104112500000000000000000000000000768004540000000000000000000104100000000000000000000000000000823130380000000000000000000104087500000000000000000000000000834626330000000000000000000104075000000000000000000000000000740459600000000000000000000104062500000000000000000000000000846071260000000000000000000104050000000000000000000000000000889634780000000000000000000104037500000000000000000000000000886383650000000000000000000104025000000000000000000000000000813975100000000000000000000104012500000000000000000000000000712338860000000000000000000104000000000000000000000000000000740886020000000000000000000103987500000000000000000000000000814975810000000000000000000103975000000000000000000000000000881442440000000000000000000103962500000000000000000000000000862251020000000000000000000103950000000000000000000000000000813869350000000000000000000103937500000000000000000000000000752236590000000000000000000103925000000000000000000000000000823599980000000000000000000103912500000000000000000000000000848396270000000000000000000103900000000000000000000000000000829484290000000000000000000103887500000000000000000000000000865776930000000000000000000103875000000000000000000000000000877840800000000000000000000103862500000000000000000000000000836171090000000000000000000103850000000000000000000000000000791219080000000000000000000103837500000000000000000000000000843604570000000000000000000103825000000000000000000000000000808706720000000000000000000103812500000000000000000000000000749185490000000000000000000103800000000000000000000000000000783802270000000000000000000103787500000000000000000000000000824760650000000000000000000103775000000000000000000000000000827168190000000000000000000103762500000000000000000000000000768994110000000000000000000103750000000000000000000000000000804741550000000000000000000103737500000000000000000000000000838676590000000000000000000103725000000000000000000000000000861442940000000000000000000103712500000000000000000000000000885211620000000000000000000103700000000000000000000000000000824152550000000000000000000103687500000000000000000000000000821636870000000000000000000103675000000000000000000000000000812340470000000000000000000103662500000000000000000000000000773777520000000000000000000103650000000000000000000000000000746574580000000000000000000103637500000000000000000000000000776468860000000000000000000103625000000000000000000000000000820425370000000000000000000103612500000000000000000000000000847259440000000000000000000103600000000000000000000000000000828923210000000000000000000103587500000000000000000000000000888335410000000000000000000103575000000000000000000000000000854329180000000000000000000103562500000000000000000000000000867367890000000000000000000103550000000000000000000000000000832805270000000000000000000103537500000000000000000000000000802823680000000000000000000103525000000000000000000000000000837904630000000000000000000103512500000000000000000000000000824000400000000000000000000103500000000000000000000000000000779894940000000000000000000103487500000000000000000000000000760969080000000000000000000103475000000000000000000000000000817431110000000000000000000103462500000000000000000000000000854685040000000000000000000103450000000000000000000000000000773818680000000000000000000103437500000000000000000000000000802924720000000000000000000103425000000000000000000000000000803042820000000000000000000103412500000000000000000000000000829778480000000000000000000103400000000000000000000,
    837987820000000000000000000104987500000000000000000000000000825740260000000000000000000104975000000000000000000000000000800212510000000000000000000104962500000000000000000000000000840188720000000000000000000104950000000000000000000000000000796894640000000000000000000104937500000000000000000000000000838484030000000000000000000104925000000000000000000000000000920324480000000000000000000104912500000000000000000000000000851738710000000000000000000104900000000000000000000000000000705943160000000000000000000104887500000000000000000000000000792233650000000000000000000104875000000000000000000000000000849322460000000000000000000104862500000000000000000000000000864855590000000000000000000104850000000000000000000000000000878220030000000000000000000104837500000000000000000000000000855928810000000000000000000104825000000000000000000000000000879646330000000000000000000104812500000000000000000000000000842796430000000000000000000104800000000000000000000000000000746145280000000000000000000104787500000000000000000000000000719859020000000000000000000104775000000000000000000000000000813461320000000000000000000104762500000000000000000000000000830282280000000000000000000104750000000000000000000000000000821458800000000000000000000104737500000000000000000000000000822397180000000000000000000104725000000000000000000000000000803350570000000000000000000104712500000000000000000000000000850001960000000000000000000104700000000000000000000000000000853153290000000000000000000104687500000000000000000000000000840683030000000000000000000104675000000000000000000000000000820460630000000000000000000104662500000000000000000000000000807532130000000000000000000104650000000000000000000000000000825013890000000000000000000104637500000000000000000000000000827816890000000000000000000104625000000000000000000000000000776225670000000000000000000104612500000000000000000000000000797624310000000000000000000104600000000000000000000000000000783157150000000000000000000104587500000000000000000000000000830400630000000000000000000104575000000000000000000000000000821667710000000000000000000104562500000000000000000000000000805206090000000000000000000104550000000000000000000000000000865040170000000000000000000104537500000000000000000000000000877790990000000000000000000104525000000000000000000000000000794838210000000000000000000104512500000000000000000000000000815371470000000000000000000104500000000000000000000000000000780877900000000000000000000104487500000000000000000000000000814317840000000000000000000104475000000000000000000000000000885536520000000000000000000104462500000000000000000000000000933279330000000000000000000104450000000000000000000000000000864508890000000000000000000104437500000000000000000000000000835833230000000000000000000104425000000000000000000000000000864989030000000000000000000104412500000000000000000000000000839022730000000000000000000104400000000000000000000000000000828728330000000000000000000104387500000000000000000000000000816734960000000000000000000104375000000000000000000000000000831715530000000000000000000104362500000000000000000000000000838634820000000000000000000104350000000000000000000000000000810201630000000000000000000104337500000000000000000000000000865878330000000000000000000104325000000000000000000000000000895110060000000000000000000104312500000000000000000000000000818181130000000000000000000104300000000000000000000000000000794523850000000000000000000104287500000000000000000000000000837580430000000000000000000104275000000000000000000000000000893357380000000000000000000104262500000000000000000000000000897419740000000000000000000104250000000000000000000000000000891171970000000000000000000104237500000000000000000000000000856380510000000000000000000104225000000000000000000000000000789714940000000000000000000104212500000000000000000000000000806031830000000000000000000104200000000000000000000,
    807598050000000000000000000105787500000000000000000000000000889068980000000000000000000105775000000000000000000000000000892284810000000000000000000105762500000000000000000000000000801852330000000000000000000105750000000000000000000000000000853112810000000000000000000105737500000000000000000000000000853385420000000000000000000105725000000000000000000000000000808038820000000000000000000105712500000000000000000000000000858929600000000000000000000105700000000000000000000000000000813559910000000000000000000105687500000000000000000000000000841545350000000000000000000105675000000000000000000000000000775021380000000000000000000105662500000000000000000000000000802023140000000000000000000105650000000000000000000000000000843716170000000000000000000105637500000000000000000000000000857202660000000000000000000105625000000000000000000000000000837178800000000000000000000105612500000000000000000000000000846123890000000000000000000105600000000000000000000000000000829579660000000000000000000105587500000000000000000000000000799088970000000000000000000105575000000000000000000000000000838364030000000000000000000105562500000000000000000000000000854017540000000000000000000105550000000000000000000000000000828072590000000000000000000105537500000000000000000000000000785681870000000000000000000105525000000000000000000000000000827935150000000000000000000105512500000000000000000000000000825938860000000000000000000105500000000000000000000000000000783788540000000000000000000105487500000000000000000000000000817094800000000000000000000105475000000000000000000000000000871830150000000000000000000105462500000000000000000000000000888070900000000000000000000105450000000000000000000000000000978857310000000000000000000105437500000000000000000000000000931165830000000000000000000105425000000000000000000000000000832938160000000000000000000105412500000000000000000000000000883343460000000000000000000105400000000000000000000000000000887061640000000000000000000105387500000000000000000000000000870548720000000000000000000105375000000000000000000000000000845553720000000000000000000105362500000000000000000000000000895460110000000000000000000105350000000000000000000000000000838373610000000000000000000105337500000000000000000000000000787073710000000000000000000105325000000000000000000000000000805605380000000000000000000105312500000000000000000000000000834425990000000000000000000105300000000000000000000000000000851317280000000000000000000105287500000000000000000000000000871995760000000000000000000105275000000000000000000000000000853570480000000000000000000105262500000000000000000000000000874345670000000000000000000105250000000000000000000000000000937955740000000000000000000105237500000000000000000000000000852768810000000000000000000105225000000000000000000000000000771961420000000000000000000105212500000000000000000000000000782197950000000000000000000105200000000000000000000000000000847430750000000000000000000105187500000000000000000000000000821438570000000000000000000105175000000000000000000000000000798523140000000000000000000105162500000000000000000000000000877819940000000000000000000105150000000000000000000000000000906085010000000000000000000105137500000000000000000000000000811653510000000000000000000105125000000000000000000000000000818851280000000000000000000105112500000000000000000000000000832689910000000000000000000105100000000000000000000000000000827756880000000000000000000105087500000000000000000000000000858660920000000000000000000105075000000000000000000000000000921371110000000000000000000105062500000000000000000000000000871490370000000000000000000105050000000000000000000000000000808398430000000000000000000105037500000000000000000000000000849476100000000000000000000105025000000000000000000000000000841754500000000000000000000105012500000000000000000000000000818217520000000000000000000105000000000000000000000,
    799399420000000000000000000106587500000000000000000000000000834556880000000000000000000106575000000000000000000000000000908781680000000000000000000106562500000000000000000000000000911143890000000000000000000106550000000000000000000000000000941566290000000000000000000106537500000000000000000000000000844524550000000000000000000106525000000000000000000000000000888717030000000000000000000106512500000000000000000000000000908904480000000000000000000106500000000000000000000000000000933915610000000000000000000106487500000000000000000000000000850836790000000000000000000106475000000000000000000000000000821991270000000000000000000106462500000000000000000000000000874955240000000000000000000106450000000000000000000000000000815129420000000000000000000106437500000000000000000000000000861556820000000000000000000106425000000000000000000000000000843966460000000000000000000106412500000000000000000000000000829938660000000000000000000106400000000000000000000000000000794671350000000000000000000106387500000000000000000000000000839245910000000000000000000106375000000000000000000000000000880902620000000000000000000106362500000000000000000000000000876610090000000000000000000106350000000000000000000000000000870766890000000000000000000106337500000000000000000000000000816629880000000000000000000106325000000000000000000000000000812547880000000000000000000106312500000000000000000000000000826884830000000000000000000106300000000000000000000000000000873641180000000000000000000106287500000000000000000000000000877318960000000000000000000106275000000000000000000000000000851314290000000000000000000106262500000000000000000000000000854232970000000000000000000106250000000000000000000000000000878925500000000000000000000106237500000000000000000000000000830497300000000000000000000106225000000000000000000000000000773875480000000000000000000106212500000000000000000000000000769953030000000000000000000106200000000000000000000000000000748156590000000000000000000106187500000000000000000000000000771308340000000000000000000106175000000000000000000000000000788571800000000000000000000106162500000000000000000000000000853297090000000000000000000106150000000000000000000000000000853823750000000000000000000106137500000000000000000000000000857189900000000000000000000106125000000000000000000000000000809428300000000000000000000106112500000000000000000000000000872201780000000000000000000106100000000000000000000000000000821383490000000000000000000106087500000000000000000000000000840389790000000000000000000106075000000000000000000000000000873746040000000000000000000106062500000000000000000000000000894373270000000000000000000106050000000000000000000000000000860184760000000000000000000106037500000000000000000000000000797736930000000000000000000106025000000000000000000000000000761213490000000000000000000106012500000000000000000000000000761361600000000000000000000106000000000000000000000000000000774770040000000000000000000105987500000000000000000000000000768402550000000000000000000105975000000000000000000000000000772638820000000000000000000105962500000000000000000000000000769886600000000000000000000105950000000000000000000000000000856986880000000000000000000105937500000000000000000000000000877686540000000000000000000105925000000000000000000000000000875837180000000000000000000105912500000000000000000000000000864500880000000000000000000105900000000000000000000000000000891360310000000000000000000105887500000000000000000000000000931809050000000000000000000105875000000000000000000000000000864372100000000000000000000105862500000000000000000000000000897237380000000000000000000105850000000000000000000000000000862452480000000000000000000105837500000000000000000000000000855908390000000000000000000105825000000000000000000000000000867895740000000000000000000105812500000000000000000000000000822695500000000000000000000105800000000000000000000,
    830438870000000000000000000107387500000000000000000000000000802466900000000000000000000107375000000000000000000000000000857641610000000000000000000107362500000000000000000000000000864609480000000000000000000107350000000000000000000000000000832124620000000000000000000107337500000000000000000000000000890853490000000000000000000107325000000000000000000000000000875623940000000000000000000107312500000000000000000000000000747945910000000000000000000107300000000000000000000000000000819964790000000000000000000107287500000000000000000000000000854567830000000000000000000107275000000000000000000000000000869759610000000000000000000107262500000000000000000000000000896804780000000000000000000107250000000000000000000000000000882090120000000000000000000107237500000000000000000000000000882273550000000000000000000107225000000000000000000000000000898059350000000000000000000107212500000000000000000000000000874171190000000000000000000107200000000000000000000000000000840940700000000000000000000107187500000000000000000000000000823738190000000000000000000107175000000000000000000000000000861296860000000000000000000107162500000000000000000000000000892962100000000000000000000107150000000000000000000000000000830801920000000000000000000107137500000000000000000000000000823068460000000000000000000107125000000000000000000000000000865899010000000000000000000107112500000000000000000000000000953920240000000000000000000107100000000000000000000000000000932890880000000000000000000107087500000000000000000000000000841407520000000000000000000107075000000000000000000000000000778159600000000000000000000107062500000000000000000000000000831098110000000000000000000107050000000000000000000000000000881069910000000000000000000107037500000000000000000000000000842728780000000000000000000107025000000000000000000000000000847699060000000000000000000107012500000000000000000000000000886909420000000000000000000107000000000000000000000000000000864125860000000000000000000106987500000000000000000000000000851013120000000000000000000106975000000000000000000000000000841284860000000000000000000106962500000000000000000000000000809270460000000000000000000106950000000000000000000000000000828479010000000000000000000106937500000000000000000000000000788255620000000000000000000106925000000000000000000000000000802981290000000000000000000106912500000000000000000000000000813872800000000000000000000106900000000000000000000000000000809459790000000000000000000106887500000000000000000000000000849322630000000000000000000106875000000000000000000000000000920613020000000000000000000106862500000000000000000000000000908510430000000000000000000106850000000000000000000000000000821050220000000000000000000106837500000000000000000000000000878476950000000000000000000106825000000000000000000000000000877196300000000000000000000106812500000000000000000000000000920315550000000000000000000106800000000000000000000000000000885062800000000000000000000106787500000000000000000000000000856627340000000000000000000106775000000000000000000000000000825409020000000000000000000106762500000000000000000000000000805775970000000000000000000106750000000000000000000000000000819214620000000000000000000106737500000000000000000000000000842684760000000000000000000106725000000000000000000000000000892186200000000000000000000106712500000000000000000000000000919833500000000000000000000106700000000000000000000000000000845220790000000000000000000106687500000000000000000000000000802573290000000000000000000106675000000000000000000000000000802572680000000000000000000106662500000000000000000000000000849737920000000000000000000106650000000000000000000000000000837799590000000000000000000106637500000000000000000000000000781124490000000000000000000106625000000000000000000000000000880311650000000000000000000106612500000000000000000000000000858581620000000000000000000106600000000000000000000,
    888662930000000000000000000108187500000000000000000000000000875510970000000000000000000108175000000000000000000000000000931884400000000000000000000108162500000000000000000000000000907285270000000000000000000108150000000000000000000000000000795540290000000000000000000108137500000000000000000000000000804657480000000000000000000108125000000000000000000000000000843109260000000000000000000108112500000000000000000000000000933636590000000000000000000108100000000000000000000000000000892280970000000000000000000108087500000000000000000000000000822421580000000000000000000108075000000000000000000000000000881180680000000000000000000108062500000000000000000000000000856399820000000000000000000108050000000000000000000000000000858871980000000000000000000108037500000000000000000000000000850230620000000000000000000108025000000000000000000000000000863286990000000000000000000108012500000000000000000000000000935472520000000000000000000108000000000000000000000000000000864439980000000000000000000107987500000000000000000000000000795837650000000000000000000107975000000000000000000000000000881734230000000000000000000107962500000000000000000000000000884543990000000000000000000107950000000000000000000000000000832037080000000000000000000107937500000000000000000000000000889160180000000000000000000107925000000000000000000000000000881185140000000000000000000107912500000000000000000000000000806170310000000000000000000107900000000000000000000000000000839733160000000000000000000107887500000000000000000000000000844245020000000000000000000107875000000000000000000000000000787228780000000000000000000107862500000000000000000000000000882958180000000000000000000107850000000000000000000000000000893401640000000000000000000107837500000000000000000000000000876646990000000000000000000107825000000000000000000000000000902573420000000000000000000107812500000000000000000000000000827680000000000000000000000107800000000000000000000000000000847605620000000000000000000107787500000000000000000000000000849522590000000000000000000107775000000000000000000000000000849976930000000000000000000107762500000000000000000000000000927667410000000000000000000107750000000000000000000000000000936456430000000000000000000107737500000000000000000000000000886803890000000000000000000107725000000000000000000000000000788175490000000000000000000107712500000000000000000000000000837979390000000000000000000107700000000000000000000000000000820362140000000000000000000107687500000000000000000000000000841041850000000000000000000107675000000000000000000000000000821903540000000000000000000107662500000000000000000000000000835056810000000000000000000107650000000000000000000000000000917126630000000000000000000107637500000000000000000000000000899074920000000000000000000107625000000000000000000000000000854988350000000000000000000107612500000000000000000000000000849936820000000000000000000107600000000000000000000000000000865575470000000000000000000107587500000000000000000000000000846418090000000000000000000107575000000000000000000000000000836737550000000000000000000107562500000000000000000000000000875237620000000000000000000107550000000000000000000000000000856970710000000000000000000107537500000000000000000000000000808195900000000000000000000107525000000000000000000000000000862427170000000000000000000107512500000000000000000000000000848681930000000000000000000107500000000000000000000000000000834884510000000000000000000107487500000000000000000000000000868548850000000000000000000107475000000000000000000000000000859158460000000000000000000107462500000000000000000000000000861298160000000000000000000107450000000000000000000000000000848101670000000000000000000107437500000000000000000000000000856754620000000000000000000107425000000000000000000000000000835566690000000000000000000107412500000000000000000000000000848527470000000000000000000107400000000000000000000,
    861031250000000000000000000108987500000000000000000000000000828442060000000000000000000108975000000000000000000000000000850767420000000000000000000108962500000000000000000000000000860560530000000000000000000108950000000000000000000000000000884229330000000000000000000108937500000000000000000000000000906053510000000000000000000108925000000000000000000000000000921991950000000000000000000108912500000000000000000000000000911327970000000000000000000108900000000000000000000000000000846923530000000000000000000108887500000000000000000000000000847621330000000000000000000108875000000000000000000000000000840082480000000000000000000108862500000000000000000000000000834102790000000000000000000108850000000000000000000000000000884041180000000000000000000108837500000000000000000000000000827745430000000000000000000108825000000000000000000000000000844330730000000000000000000108812500000000000000000000000000881446080000000000000000000108800000000000000000000000000000791070030000000000000000000108787500000000000000000000000000781351710000000000000000000108775000000000000000000000000000900726480000000000000000000108762500000000000000000000000000919481750000000000000000000108750000000000000000000000000000853886900000000000000000000108737500000000000000000000000000875385760000000000000000000108725000000000000000000000000000891819830000000000000000000108712500000000000000000000000000892784210000000000000000000108700000000000000000000000000000897513440000000000000000000108687500000000000000000000000000939114550000000000000000000108675000000000000000000000000000894172210000000000000000000108662500000000000000000000000000801615430000000000000000000108650000000000000000000000000000795503650000000000000000000108637500000000000000000000000000860618890000000000000000000108625000000000000000000000000000807236410000000000000000000108612500000000000000000000000000796032150000000000000000000108600000000000000000000000000000942616610000000000000000000108587500000000000000000000000000943645270000000000000000000108575000000000000000000000000000804040130000000000000000000108562500000000000000000000000000871327320000000000000000000108550000000000000000000000000000881132780000000000000000000108537500000000000000000000000000885682590000000000000000000108525000000000000000000000000000867255560000000000000000000108512500000000000000000000000000838043330000000000000000000108500000000000000000000000000000850731120000000000000000000108487500000000000000000000000000895047620000000000000000000108475000000000000000000000000000880257300000000000000000000108462500000000000000000000000000874485290000000000000000000108450000000000000000000000000000829860660000000000000000000108437500000000000000000000000000824138470000000000000000000108425000000000000000000000000000819118120000000000000000000108412500000000000000000000000000816416820000000000000000000108400000000000000000000000000000861568200000000000000000000108387500000000000000000000000000811192410000000000000000000108375000000000000000000000000000833761280000000000000000000108362500000000000000000000000000839515810000000000000000000108350000000000000000000000000000856508120000000000000000000108337500000000000000000000000000904263540000000000000000000108325000000000000000000000000000896091170000000000000000000108312500000000000000000000000000874383370000000000000000000108300000000000000000000000000000824880930000000000000000000108287500000000000000000000000000789952300000000000000000000108275000000000000000000000000000814746080000000000000000000108262500000000000000000000000000853903310000000000000000000108250000000000000000000000000000860321050000000000000000000108237500000000000000000000000000876559590000000000000000000108225000000000000000000000000000842772160000000000000000000108212500000000000000000000000000825114120000000000000000000108200000000000000000000,
    916917060000000000000000000109787500000000000000000000000000905003570000000000000000000109775000000000000000000000000000854202010000000000000000000109762500000000000000000000000000842870760000000000000000000109750000000000000000000000000000821603040000000000000000000109737500000000000000000000000000894334210000000000000000000109725000000000000000000000000000924315680000000000000000000109712500000000000000000000000000883209850000000000000000000109700000000000000000000000000000846574240000000000000000000109687500000000000000000000000000885475960000000000000000000109675000000000000000000000000000853494710000000000000000000109662500000000000000000000000000891321720000000000000000000109650000000000000000000000000000863551140000000000000000000109637500000000000000000000000000834197400000000000000000000109625000000000000000000000000000855577930000000000000000000109612500000000000000000000000000875323450000000000000000000109600000000000000000000000000000838865240000000000000000000109587500000000000000000000000000858075270000000000000000000109575000000000000000000000000000852641220000000000000000000109562500000000000000000000000000882652710000000000000000000109550000000000000000000000000000910048600000000000000000000109537500000000000000000000000000986674650000000000000000000109525000000000000000000000000000893426850000000000000000000109512500000000000000000000000000800809610000000000000000000109500000000000000000000000000000801760680000000000000000000109487500000000000000000000000000874729690000000000000000000109475000000000000000000000000000824380010000000000000000000109462500000000000000000000000000794945790000000000000000000109450000000000000000000000000000892116040000000000000000000109437500000000000000000000000000851506030000000000000000000109425000000000000000000000000000881642960000000000000000000109412500000000000000000000000000825614390000000000000000000109400000000000000000000000000000818103090000000000000000000109387500000000000000000000000000778779070000000000000000000109375000000000000000000000000000860793830000000000000000000109362500000000000000000000000000872496300000000000000000000109350000000000000000000000000000838561250000000000000000000109337500000000000000000000000000867697270000000000000000000109325000000000000000000000000000833993060000000000000000000109312500000000000000000000000000818900310000000000000000000109300000000000000000000000000000797370260000000000000000000109287500000000000000000000000000827046460000000000000000000109275000000000000000000000000000890150360000000000000000000109262500000000000000000000000000866606370000000000000000000109250000000000000000000000000000887783690000000000000000000109237500000000000000000000000000873492380000000000000000000109225000000000000000000000000000883543820000000000000000000109212500000000000000000000000000863559190000000000000000000109200000000000000000000000000000821596990000000000000000000109187500000000000000000000000000831044860000000000000000000109175000000000000000000000000000815218940000000000000000000109162500000000000000000000000000824604900000000000000000000109150000000000000000000000000000831419310000000000000000000109137500000000000000000000000000886849810000000000000000000109125000000000000000000000000000941798040000000000000000000109112500000000000000000000000000971706430000000000000000000109100000000000000000000000000000921792600000000000000000000109087500000000000000000000000000885545470000000000000000000109075000000000000000000000000000956100520000000000000000000109062500000000000000000000000000888663260000000000000000000109050000000000000000000000000000847414240000000000000000000109037500000000000000000000000000851820280000000000000000000109025000000000000000000000000000877587740000000000000000000109012500000000000000000000000000911012510000000000000000000109000000000000000000000,
    931844980000000000000000000110587500000000000000000000000000990007980000000000000000000110575000000000000000000000000000957866110000000000000000000110562500000000000000000000000000888412230000000000000000000110550000000000000000000000000000852801730000000000000000000110537500000000000000000000000000847283750000000000000000000110525000000000000000000000000000901338380000000000000000000110512500000000000000000000000000834466060000000000000000000110500000000000000000000000000000837024410000000000000000000110487500000000000000000000000000908132060000000000000000000110475000000000000000000000000000844693050000000000000000000110462500000000000000000000000000869832420000000000000000000110450000000000000000000000000000853980840000000000000000000110437500000000000000000000000000789141130000000000000000000110425000000000000000000000000000764823950000000000000000000110412500000000000000000000000000767155530000000000000000000110400000000000000000000000000000857365610000000000000000000110387500000000000000000000000000902896560000000000000000000110375000000000000000000000000000932859200000000000000000000110362500000000000000000000000000939998370000000000000000000110350000000000000000000000000000917269370000000000000000000110337500000000000000000000000000875857020000000000000000000110325000000000000000000000000000844533850000000000000000000110312500000000000000000000000000896638170000000000000000000110300000000000000000000000000000979955340000000000000000000110287500000000000000000000000000913397010000000000000000000110275000000000000000000000000000842186750000000000000000000110262500000000000000000000000000927632600000000000000000000110250000000000000000000000000000978559000000000000000000000110237500000000000000000000000000996116960000000000000000000110225000000000000000000000000000947175330000000000000000000110212500000000000000000000000000867469120000000000000000000110200000000000000000000000000000896494740000000000000000000110187500000000000000000000000000886836410000000000000000000110175000000000000000000000000000928717110000000000000000000110162500000000000000000000000000917393260000000000000000000110150000000000000000000000000000872507550000000000000000000110137500000000000000000000000000844217360000000000000000000110125000000000000000000000000000846466200000000000000000000110112500000000000000000000000000881983860000000000000000000110100000000000000000000000000000954458100000000000000000000110087500000000000000000000000001016979300000000000000000000110075000000000000000000000000000950845000000000000000000000110062500000000000000000000000000917552530000000000000000000110050000000000000000000000000000935979770000000000000000000110037500000000000000000000000000855271060000000000000000000110025000000000000000000000000000910411180000000000000000000110012500000000000000000000000000944587220000000000000000000110000000000000000000000000000000815564980000000000000000000109987500000000000000000000000000860330910000000000000000000109975000000000000000000000000000872960100000000000000000000109962500000000000000000000000000952720790000000000000000000109950000000000000000000000000000928522320000000000000000000109937500000000000000000000000000969601540000000000000000000109925000000000000000000000000000968536620000000000000000000109912500000000000000000000000000883703460000000000000000000109900000000000000000000000000000875393640000000000000000000109887500000000000000000000000000879886220000000000000000000109875000000000000000000000000000893143690000000000000000000109862500000000000000000000000000804960180000000000000000000109850000000000000000000000000000833868060000000000000000000109837500000000000000000000000000833330050000000000000000000109825000000000000000000000000000842686550000000000000000000109812500000000000000000000000000897938880000000000000000000109800000000000000000000,
    820479320000000000000000000111387500000000000000000000000000805626300000000000000000000111375000000000000000000000000000796618650000000000000000000111362500000000000000000000000000787071440000000000000000000111350000000000000000000000000000854551030000000000000000000111337500000000000000000000000000894781090000000000000000000111325000000000000000000000000000925760460000000000000000000111312500000000000000000000000000868318630000000000000000000111300000000000000000000000000000844357050000000000000000000111287500000000000000000000000000868110160000000000000000000111275000000000000000000000000000901237430000000000000000000111262500000000000000000000000000942270240000000000000000000111250000000000000000000000000000990886480000000000000000000111237500000000000000000000000000901954040000000000000000000111225000000000000000000000000000836965750000000000000000000111212500000000000000000000000000858301030000000000000000000111200000000000000000000000000000883702530000000000000000000111187500000000000000000000000000919682510000000000000000000111175000000000000000000000000000900664010000000000000000000111162500000000000000000000000000911037750000000000000000000111150000000000000000000000000000859240720000000000000000000111137500000000000000000000000000899835300000000000000000000111125000000000000000000000000000929385530000000000000000000111112500000000000000000000000000921992700000000000000000000111100000000000000000000000000000867763820000000000000000000111087500000000000000000000000000897178810000000000000000000111075000000000000000000000000000854144900000000000000000000111062500000000000000000000000000918776040000000000000000000111050000000000000000000000000000961793400000000000000000000111037500000000000000000000000000976876540000000000000000000111025000000000000000000000000000904926020000000000000000000111012500000000000000000000000000835460430000000000000000000111000000000000000000000000000000852159970000000000000000000110987500000000000000000000000000823765670000000000000000000110975000000000000000000000000000829768630000000000000000000110962500000000000000000000000000852650180000000000000000000110950000000000000000000000000000838442480000000000000000000110937500000000000000000000000000787463200000000000000000000110925000000000000000000000000000789995660000000000000000000110912500000000000000000000000000853536710000000000000000000110900000000000000000000000000000937821360000000000000000000110887500000000000000000000000000944174720000000000000000000110875000000000000000000000000000894359320000000000000000000110862500000000000000000000000000871942140000000000000000000110850000000000000000000000000000826218410000000000000000000110837500000000000000000000000000866667340000000000000000000110825000000000000000000000000000875904340000000000000000000110812500000000000000000000000000835664710000000000000000000110800000000000000000000000000000840236030000000000000000000110787500000000000000000000000000890818550000000000000000000110775000000000000000000000000000879219280000000000000000000110762500000000000000000000000000833498120000000000000000000110750000000000000000000000000000839971160000000000000000000110737500000000000000000000000000854857640000000000000000000110725000000000000000000000000000873273860000000000000000000110712500000000000000000000000000864519050000000000000000000110700000000000000000000000000000830893590000000000000000000110687500000000000000000000000000843377470000000000000000000110675000000000000000000000000000873713800000000000000000000110662500000000000000000000000000920414940000000000000000000110650000000000000000000000000000845304970000000000000000000110637500000000000000000000000000851490090000000000000000000110625000000000000000000000000000905409360000000000000000000110612500000000000000000000000000912103200000000000000000000110600000000000000000000,
    821879390000000000000000000112187500000000000000000000000000858045300000000000000000000112175000000000000000000000000000848160850000000000000000000112162500000000000000000000000000849466130000000000000000000112150000000000000000000000000000866014530000000000000000000112137500000000000000000000000000932177540000000000000000000112125000000000000000000000000000921667940000000000000000000112112500000000000000000000000000830782860000000000000000000112100000000000000000000000000000829669610000000000000000000112087500000000000000000000000000903650200000000000000000000112075000000000000000000000000000925486530000000000000000000112062500000000000000000000000000892703410000000000000000000112050000000000000000000000000000867711980000000000000000000112037500000000000000000000000000926243070000000000000000000112025000000000000000000000000000935302630000000000000000000112012500000000000000000000000000848320670000000000000000000112000000000000000000000000000000862648500000000000000000000111987500000000000000000000000000843730510000000000000000000111975000000000000000000000000000865378600000000000000000000111962500000000000000000000000000951709400000000000000000000111950000000000000000000000000000893789870000000000000000000111937500000000000000000000000000889664410000000000000000000111925000000000000000000000000000885283090000000000000000000111912500000000000000000000000000847681730000000000000000000111900000000000000000000000000000873891730000000000000000000111887500000000000000000000000000875298050000000000000000000111875000000000000000000000000000879993700000000000000000000111862500000000000000000000000000871771770000000000000000000111850000000000000000000000000000881144910000000000000000000111837500000000000000000000000000938110690000000000000000000111825000000000000000000000000000865275130000000000000000000111812500000000000000000000000000857853200000000000000000000111800000000000000000000000000000866944200000000000000000000111787500000000000000000000000000862571230000000000000000000111775000000000000000000000000000830561920000000000000000000111762500000000000000000000000000853751410000000000000000000111750000000000000000000000000000870762160000000000000000000111737500000000000000000000000000847893560000000000000000000111725000000000000000000000000000836900810000000000000000000111712500000000000000000000000000826527270000000000000000000111700000000000000000000000000000857508490000000000000000000111687500000000000000000000000000851020220000000000000000000111675000000000000000000000000000841747010000000000000000000111662500000000000000000000000000846015370000000000000000000111650000000000000000000000000000911528410000000000000000000111637500000000000000000000000000883028980000000000000000000111625000000000000000000000000000853662820000000000000000000111612500000000000000000000000000865168110000000000000000000111600000000000000000000000000000906558700000000000000000000111587500000000000000000000000000963960100000000000000000000111575000000000000000000000000000888788270000000000000000000111562500000000000000000000000000906008900000000000000000000111550000000000000000000000000000854862480000000000000000000111537500000000000000000000000000856048870000000000000000000111525000000000000000000000000000908496260000000000000000000111512500000000000000000000000000797955840000000000000000000111500000000000000000000000000000851755500000000000000000000111487500000000000000000000000000906064200000000000000000000111475000000000000000000000000000877584580000000000000000000111462500000000000000000000000000825267640000000000000000000111450000000000000000000000000000932700410000000000000000000111437500000000000000000000000000922572130000000000000000000111425000000000000000000000000000934285900000000000000000000111412500000000000000000000000000909244400000000000000000000111400000000000000000000,
    941478460000000000000000000112987500000000000000000000000000919626390000000000000000000112975000000000000000000000000000868278700000000000000000000112962500000000000000000000000000854319590000000000000000000112950000000000000000000000000000818385350000000000000000000112937500000000000000000000000000830214240000000000000000000112925000000000000000000000000000864724010000000000000000000112912500000000000000000000000000850364290000000000000000000112900000000000000000000000000000886697970000000000000000000112887500000000000000000000000000876358180000000000000000000112875000000000000000000000000000900144900000000000000000000112862500000000000000000000000000909298650000000000000000000112850000000000000000000000000000817921140000000000000000000112837500000000000000000000000000805161680000000000000000000112825000000000000000000000000000825891190000000000000000000112812500000000000000000000000000792285080000000000000000000112800000000000000000000000000000736864910000000000000000000112787500000000000000000000000000807356410000000000000000000112775000000000000000000000000000920862570000000000000000000112762500000000000000000000000000921628390000000000000000000112750000000000000000000000000000885616960000000000000000000112737500000000000000000000000000838835140000000000000000000112725000000000000000000000000000847379930000000000000000000112712500000000000000000000000000900955790000000000000000000112700000000000000000000000000000872054770000000000000000000112687500000000000000000000000000868504930000000000000000000112675000000000000000000000000000916578950000000000000000000112662500000000000000000000000000885554310000000000000000000112650000000000000000000000000000867916690000000000000000000112637500000000000000000000000000874703970000000000000000000112625000000000000000000000000000939326440000000000000000000112612500000000000000000000000000916565430000000000000000000112600000000000000000000000000000894136360000000000000000000112587500000000000000000000000000823930670000000000000000000112575000000000000000000000000000844334660000000000000000000112562500000000000000000000000000876660810000000000000000000112550000000000000000000000000000906998930000000000000000000112537500000000000000000000000000895403100000000000000000000112525000000000000000000000000000816969420000000000000000000112512500000000000000000000000000877501180000000000000000000112500000000000000000000000000000896883380000000000000000000112487500000000000000000000000000888259980000000000000000000112475000000000000000000000000000877795270000000000000000000112462500000000000000000000000000923988480000000000000000000112450000000000000000000000000000870125740000000000000000000112437500000000000000000000000000823166060000000000000000000112425000000000000000000000000000903266960000000000000000000112412500000000000000000000000000901581200000000000000000000112400000000000000000000000000000861691730000000000000000000112387500000000000000000000000000916288690000000000000000000112375000000000000000000000000000910591890000000000000000000112362500000000000000000000000000849747850000000000000000000112350000000000000000000000000000841250580000000000000000000112337500000000000000000000000000850847970000000000000000000112325000000000000000000000000000911893690000000000000000000112312500000000000000000000000000833947250000000000000000000112300000000000000000000000000000839414490000000000000000000112287500000000000000000000000000863983350000000000000000000112275000000000000000000000000000919207670000000000000000000112262500000000000000000000000000951497600000000000000000000112250000000000000000000000000000934541280000000000000000000112237500000000000000000000000000985750960000000000000000000112225000000000000000000000000000921869370000000000000000000112212500000000000000000000000000886181250000000000000000000112200000000000000000000,
    925051510000000000000000000113787500000000000000000000000000904888690000000000000000000113775000000000000000000000000000877568220000000000000000000113762500000000000000000000000000873709770000000000000000000113750000000000000000000000000000855576500000000000000000000113737500000000000000000000000000866508180000000000000000000113725000000000000000000000000000940798680000000000000000000113712500000000000000000000000000932968050000000000000000000113700000000000000000000000000000861227610000000000000000000113687500000000000000000000000000857400450000000000000000000113675000000000000000000000000000818957010000000000000000000113662500000000000000000000000000876017850000000000000000000113650000000000000000000000000000957415240000000000000000000113637500000000000000000000000000912809090000000000000000000113625000000000000000000000000000870573080000000000000000000113612500000000000000000000000000874195550000000000000000000113600000000000000000000000000000891849050000000000000000000113587500000000000000000000000000840517650000000000000000000113575000000000000000000000000000910165180000000000000000000113562500000000000000000000000000879401210000000000000000000113550000000000000000000000000000906818870000000000000000000113537500000000000000000000000000920560190000000000000000000113525000000000000000000000000000891391830000000000000000000113512500000000000000000000000000894250080000000000000000000113500000000000000000000000000000918783630000000000000000000113487500000000000000000000000000893545540000000000000000000113475000000000000000000000000000873801580000000000000000000113462500000000000000000000000000930532420000000000000000000113450000000000000000000000000000794846940000000000000000000113437500000000000000000000000000837665560000000000000000000113425000000000000000000000000000939605120000000000000000000113412500000000000000000000000000877984930000000000000000000113400000000000000000000000000000866800450000000000000000000113387500000000000000000000000000864820630000000000000000000113375000000000000000000000000000852954070000000000000000000113362500000000000000000000000000839859800000000000000000000113350000000000000000000000000000854912910000000000000000000113337500000000000000000000000000920424890000000000000000000113325000000000000000000000000000968437360000000000000000000113312500000000000000000000000001025266800000000000000000000113300000000000000000000000000000945461020000000000000000000113287500000000000000000000000000955562820000000000000000000113275000000000000000000000000000974231880000000000000000000113262500000000000000000000000000926247110000000000000000000113250000000000000000000000000000869693190000000000000000000113237500000000000000000000000000880660040000000000000000000113225000000000000000000000000000920103450000000000000000000113212500000000000000000000000000946072440000000000000000000113200000000000000000000000000001018215600000000000000000000113187500000000000000000000000000935158880000000000000000000113175000000000000000000000000000985704440000000000000000000113162500000000000000000000000000989662270000000000000000000113150000000000000000000000000000964445980000000000000000000113137500000000000000000000000000971304800000000000000000000113125000000000000000000000000000944589940000000000000000000113112500000000000000000000000000862153940000000000000000000113100000000000000000000000000000903832460000000000000000000113087500000000000000000000000000933307430000000000000000000113075000000000000000000000000000908178400000000000000000000113062500000000000000000000000000883774490000000000000000000113050000000000000000000000000000877927880000000000000000000113037500000000000000000000000000863975140000000000000000000113025000000000000000000000000000867502580000000000000000000113012500000000000000000000000001012527200000000000000000000113000000000000000000000,
    913811660000000000000000000114587500000000000000000000000000984265300000000000000000000114575000000000000000000000000000949352510000000000000000000114562500000000000000000000000000883238500000000000000000000114550000000000000000000000000000864613740000000000000000000114537500000000000000000000000000916431640000000000000000000114525000000000000000000000000000904011370000000000000000000114512500000000000000000000000000897957310000000000000000000114500000000000000000000000000000878984740000000000000000000114487500000000000000000000000000845882830000000000000000000114475000000000000000000000000000860837680000000000000000000114462500000000000000000000000000953827660000000000000000000114450000000000000000000000000000910782770000000000000000000114437500000000000000000000000000842259190000000000000000000114425000000000000000000000000000904818590000000000000000000114412500000000000000000000000000883757110000000000000000000114400000000000000000000000000000932244120000000000000000000114387500000000000000000000000000941519010000000000000000000114375000000000000000000000000000919069960000000000000000000114362500000000000000000000000000930424830000000000000000000114350000000000000000000000000000924698350000000000000000000114337500000000000000000000000000871438090000000000000000000114325000000000000000000000000000945257550000000000000000000114312500000000000000000000000000950155580000000000000000000114300000000000000000000000000000873745560000000000000000000114287500000000000000000000000000885095310000000000000000000114275000000000000000000000000000916774710000000000000000000114262500000000000000000000000000857243010000000000000000000114250000000000000000000000000000844478920000000000000000000114237500000000000000000000000000855811290000000000000000000114225000000000000000000000000000828040570000000000000000000114212500000000000000000000000000878393460000000000000000000114200000000000000000000000000000876289600000000000000000000114187500000000000000000000000000829668360000000000000000000114175000000000000000000000000000844676020000000000000000000114162500000000000000000000000000899121410000000000000000000114150000000000000000000000000000888994910000000000000000000114137500000000000000000000000000901129980000000000000000000114125000000000000000000000000000853976700000000000000000000114112500000000000000000000000000836279150000000000000000000114100000000000000000000000000000881795580000000000000000000114087500000000000000000000000000850081480000000000000000000114075000000000000000000000000000871298520000000000000000000114062500000000000000000000000000904739000000000000000000000114050000000000000000000000000000937003050000000000000000000114037500000000000000000000000000878579010000000000000000000114025000000000000000000000000000859975700000000000000000000114012500000000000000000000000000929821830000000000000000000114000000000000000000000000000000889253350000000000000000000113987500000000000000000000000000841621190000000000000000000113975000000000000000000000000000877272470000000000000000000113962500000000000000000000000000831040290000000000000000000113950000000000000000000000000000954895300000000000000000000113937500000000000000000000000000922102370000000000000000000113925000000000000000000000000000829294140000000000000000000113912500000000000000000000000000814123290000000000000000000113900000000000000000000000000000889324780000000000000000000113887500000000000000000000000000949905910000000000000000000113875000000000000000000000000000868917940000000000000000000113862500000000000000000000000000895773140000000000000000000113850000000000000000000000000000909571450000000000000000000113837500000000000000000000000000865603710000000000000000000113825000000000000000000000000000853412440000000000000000000113812500000000000000000000000000852001570000000000000000000113800000000000000000000,
    891029630000000000000000000115387500000000000000000000000000865546730000000000000000000115375000000000000000000000000000855026050000000000000000000115362500000000000000000000000000877831690000000000000000000115350000000000000000000000000000863936800000000000000000000115337500000000000000000000000000867744070000000000000000000115325000000000000000000000000000845985920000000000000000000115312500000000000000000000000000858903290000000000000000000115300000000000000000000000000000868097420000000000000000000115287500000000000000000000000000872826290000000000000000000115275000000000000000000000000000891766320000000000000000000115262500000000000000000000000000967882160000000000000000000115250000000000000000000000000000936638210000000000000000000115237500000000000000000000000000961966930000000000000000000115225000000000000000000000000000957703030000000000000000000115212500000000000000000000000000940534280000000000000000000115200000000000000000000000000000974069500000000000000000000115187500000000000000000000000000978398510000000000000000000115175000000000000000000000000000889439740000000000000000000115162500000000000000000000000000892220290000000000000000000115150000000000000000000000000000828526910000000000000000000115137500000000000000000000000000855819650000000000000000000115125000000000000000000000000000928466900000000000000000000115112500000000000000000000000000949698060000000000000000000115100000000000000000000000000000927479090000000000000000000115087500000000000000000000000000917259400000000000000000000115075000000000000000000000000000934842360000000000000000000115062500000000000000000000000000872704510000000000000000000115050000000000000000000000000000857396650000000000000000000115037500000000000000000000000000880108560000000000000000000115025000000000000000000000000000875881480000000000000000000115012500000000000000000000000000924722840000000000000000000115000000000000000000000000000000988191770000000000000000000114987500000000000000000000000000933726830000000000000000000114975000000000000000000000000000946292100000000000000000000114962500000000000000000000000000859807010000000000000000000114950000000000000000000000000000897932670000000000000000000114937500000000000000000000000000943970920000000000000000000114925000000000000000000000000000904436420000000000000000000114912500000000000000000000000000925551410000000000000000000114900000000000000000000000000000818799800000000000000000000114887500000000000000000000000000909387330000000000000000000114875000000000000000000000000000991064180000000000000000000114862500000000000000000000000000939440140000000000000000000114850000000000000000000000000000879762520000000000000000000114837500000000000000000000000000889127210000000000000000000114825000000000000000000000000000960290590000000000000000000114812500000000000000000000000000948258370000000000000000000114800000000000000000000000000000936028640000000000000000000114787500000000000000000000000000882299910000000000000000000114775000000000000000000000000000837972970000000000000000000114762500000000000000000000000000849332140000000000000000000114750000000000000000000000000000852868720000000000000000000114737500000000000000000000000000875635720000000000000000000114725000000000000000000000000000930485320000000000000000000114712500000000000000000000000000927273020000000000000000000114700000000000000000000000000000878989140000000000000000000114687500000000000000000000000000953707760000000000000000000114675000000000000000000000000000986178480000000000000000000114662500000000000000000000000000949376760000000000000000000114650000000000000000000000000000911228420000000000000000000114637500000000000000000000000000963960220000000000000000000114625000000000000000000000000000930812540000000000000000000114612500000000000000000000000000884808530000000000000000000114600000000000000000000,
    928563780000000000000000000116187500000000000000000000000000866387090000000000000000000116175000000000000000000000000000904901340000000000000000000116162500000000000000000000000000950969930000000000000000000116150000000000000000000000000000903854860000000000000000000116137500000000000000000000000000971483610000000000000000000116125000000000000000000000000000938259290000000000000000000116112500000000000000000000000000884091520000000000000000000116100000000000000000000000000000966439560000000000000000000116087500000000000000000000000000998105050000000000000000000116075000000000000000000000000000934984790000000000000000000116062500000000000000000000000000919365170000000000000000000116050000000000000000000000000000867260980000000000000000000116037500000000000000000000000000912555540000000000000000000116025000000000000000000000000000936576850000000000000000000116012500000000000000000000000000937997060000000000000000000116000000000000000000000000000000904938640000000000000000000115987500000000000000000000000000940677150000000000000000000115975000000000000000000000000000918182770000000000000000000115962500000000000000000000000000894789050000000000000000000115950000000000000000000000000000861758120000000000000000000115937500000000000000000000000000874964100000000000000000000115925000000000000000000000000000889853440000000000000000000115912500000000000000000000000000901460100000000000000000000115900000000000000000000000000000899741270000000000000000000115887500000000000000000000000000877494920000000000000000000115875000000000000000000000000000863248180000000000000000000115862500000000000000000000000000875071210000000000000000000115850000000000000000000000000000912804020000000000000000000115837500000000000000000000000000885743080000000000000000000115825000000000000000000000000000910902290000000000000000000115812500000000000000000000000000945619400000000000000000000115800000000000000000000000000000924402730000000000000000000115787500000000000000000000000000869365960000000000000000000115775000000000000000000000000000921701370000000000000000000115762500000000000000000000000000934706200000000000000000000115750000000000000000000000000001027352800000000000000000000115737500000000000000000000000001073086500000000000000000000115725000000000000000000000000000854286390000000000000000000115712500000000000000000000000000876412370000000000000000000115700000000000000000000000000000887212630000000000000000000115687500000000000000000000000000869602930000000000000000000115675000000000000000000000000000880450950000000000000000000115662500000000000000000000000000893643020000000000000000000115650000000000000000000000000000900129630000000000000000000115637500000000000000000000000000868187070000000000000000000115625000000000000000000000000000912795990000000000000000000115612500000000000000000000000000900790210000000000000000000115600000000000000000000000000000864099840000000000000000000115587500000000000000000000000000905487680000000000000000000115575000000000000000000000000000878092220000000000000000000115562500000000000000000000000000849776320000000000000000000115550000000000000000000000000000935955190000000000000000000115537500000000000000000000000000887051950000000000000000000115525000000000000000000000000000860799040000000000000000000115512500000000000000000000000000917742550000000000000000000115500000000000000000000000000000891507170000000000000000000115487500000000000000000000000000897840900000000000000000000115475000000000000000000000000000905503670000000000000000000115462500000000000000000000000000854122960000000000000000000115450000000000000000000000000000892559710000000000000000000115437500000000000000000000000000906307310000000000000000000115425000000000000000000000000000889240650000000000000000000115412500000000000000000000000000862158920000000000000000000115400000000000000000000,
    993660420000000000000000000116987500000000000000000000000000984143500000000000000000000116975000000000000000000000000000931413230000000000000000000116962500000000000000000000000001007879700000000000000000000116950000000000000000000000000000932119610000000000000000000116937500000000000000000000000000935456090000000000000000000116925000000000000000000000000000944154030000000000000000000116912500000000000000000000000000942791860000000000000000000116900000000000000000000000000000964217600000000000000000000116887500000000000000000000000000964166270000000000000000000116875000000000000000000000000000960188030000000000000000000116862500000000000000000000000000912570520000000000000000000116850000000000000000000000000000911236480000000000000000000116837500000000000000000000000000925916360000000000000000000116825000000000000000000000000000935486630000000000000000000116812500000000000000000000000000937643150000000000000000000116800000000000000000000000000000902689510000000000000000000116787500000000000000000000000000838860560000000000000000000116775000000000000000000000000000836096740000000000000000000116762500000000000000000000000000945929860000000000000000000116750000000000000000000000000000986261390000000000000000000116737500000000000000000000000000921034650000000000000000000116725000000000000000000000000000950873180000000000000000000116712500000000000000000000000000977543460000000000000000000116700000000000000000000000000000942567370000000000000000000116687500000000000000000000000000892247040000000000000000000116675000000000000000000000000000857800920000000000000000000116662500000000000000000000000000839749590000000000000000000116650000000000000000000000000000835120900000000000000000000116637500000000000000000000000000839215540000000000000000000116625000000000000000000000000000936328170000000000000000000116612500000000000000000000000000930019560000000000000000000116600000000000000000000000000000815355050000000000000000000116587500000000000000000000000000815525210000000000000000000116575000000000000000000000000000916161140000000000000000000116562500000000000000000000000000899682190000000000000000000116550000000000000000000000000000859698420000000000000000000116537500000000000000000000000000862415250000000000000000000116525000000000000000000000000000888698920000000000000000000116512500000000000000000000000000818506970000000000000000000116500000000000000000000000000000877370860000000000000000000116487500000000000000000000000000945616970000000000000000000116475000000000000000000000000000823525410000000000000000000116462500000000000000000000000000828508920000000000000000000116450000000000000000000000000000888494290000000000000000000116437500000000000000000000000000891561920000000000000000000116425000000000000000000000000000971070080000000000000000000116412500000000000000000000000000930570730000000000000000000116400000000000000000000000000000937897090000000000000000000116387500000000000000000000000001047418500000000000000000000116375000000000000000000000000000929015480000000000000000000116362500000000000000000000000000918520360000000000000000000116350000000000000000000000000000970315680000000000000000000116337500000000000000000000000000951058210000000000000000000116325000000000000000000000000000998911210000000000000000000116312500000000000000000000000001003894400000000000000000000116300000000000000000000000000000958874390000000000000000000116287500000000000000000000000000874228420000000000000000000116275000000000000000000000000000938342980000000000000000000116262500000000000000000000000000950312200000000000000000000116250000000000000000000000000000913481440000000000000000000116237500000000000000000000000000904538790000000000000000000116225000000000000000000000000000931076970000000000000000000116212500000000000000000000000000919665520000000000000000000116200000000000000000000,
    1025752900000000000000000000117787500000000000000000000000000943928260000000000000000000117775000000000000000000000000000916351510000000000000000000117762500000000000000000000000000917075360000000000000000000117750000000000000000000000000000959112730000000000000000000117737500000000000000000000000000934057370000000000000000000117725000000000000000000000000000951623010000000000000000000117712500000000000000000000000000973897290000000000000000000117700000000000000000000000000000959619130000000000000000000117687500000000000000000000000000894421790000000000000000000117675000000000000000000000000000898391030000000000000000000117662500000000000000000000000000934267930000000000000000000117650000000000000000000000000000954547720000000000000000000117637500000000000000000000000000846724540000000000000000000117625000000000000000000000000000930636280000000000000000000117612500000000000000000000000000974119610000000000000000000117600000000000000000000000000000935221090000000000000000000117587500000000000000000000000000943325150000000000000000000117575000000000000000000000000000927412560000000000000000000117562500000000000000000000000000876547590000000000000000000117550000000000000000000000000000904718610000000000000000000117537500000000000000000000000000930978420000000000000000000117525000000000000000000000000000941079410000000000000000000117512500000000000000000000000001005901400000000000000000000117500000000000000000000000000000993979890000000000000000000117487500000000000000000000000000936273800000000000000000000117475000000000000000000000000000884055090000000000000000000117462500000000000000000000000000893680260000000000000000000117450000000000000000000000000000846675290000000000000000000117437500000000000000000000000000882603800000000000000000000117425000000000000000000000000000906014250000000000000000000117412500000000000000000000000000885661250000000000000000000117400000000000000000000000000000938647370000000000000000000117387500000000000000000000000000980924300000000000000000000117375000000000000000000000000000911795980000000000000000000117362500000000000000000000000000943970480000000000000000000117350000000000000000000000000000938611510000000000000000000117337500000000000000000000000000895023850000000000000000000117325000000000000000000000000000853682430000000000000000000117312500000000000000000000000000945745370000000000000000000117300000000000000000000000000000973922080000000000000000000117287500000000000000000000000000968464690000000000000000000117275000000000000000000000000000918936460000000000000000000117262500000000000000000000000000956244900000000000000000000117250000000000000000000000000000914060620000000000000000000117237500000000000000000000000000865563390000000000000000000117225000000000000000000000000000911243100000000000000000000117212500000000000000000000000001014322800000000000000000000117200000000000000000000000000001054262000000000000000000000117187500000000000000000000000000999966900000000000000000000117175000000000000000000000000000927399140000000000000000000117162500000000000000000000000000972716240000000000000000000117150000000000000000000000000000902729290000000000000000000117137500000000000000000000000000968632110000000000000000000117125000000000000000000000000000966276650000000000000000000117112500000000000000000000000000896496810000000000000000000117100000000000000000000000000000899015840000000000000000000117087500000000000000000000000000912455380000000000000000000117075000000000000000000000000000901723060000000000000000000117062500000000000000000000000000923924030000000000000000000117050000000000000000000000000000935448190000000000000000000117037500000000000000000000000000906151260000000000000000000117025000000000000000000000000000848614700000000000000000000117012500000000000000000000000000890087800000000000000000000117000000000000000000000,
    992886010000000000000000000118587500000000000000000000000000951985160000000000000000000118575000000000000000000000000000910957190000000000000000000118562500000000000000000000000000918846220000000000000000000118550000000000000000000000000000960844370000000000000000000118537500000000000000000000000001008523100000000000000000000118525000000000000000000000000000950503310000000000000000000118512500000000000000000000000000932613820000000000000000000118500000000000000000000000000000927173130000000000000000000118487500000000000000000000000000951444030000000000000000000118475000000000000000000000000000966350530000000000000000000118462500000000000000000000000000906117690000000000000000000118450000000000000000000000000000904697960000000000000000000118437500000000000000000000000000932361300000000000000000000118425000000000000000000000000000937884640000000000000000000118412500000000000000000000000000955740940000000000000000000118400000000000000000000000000001002375400000000000000000000118387500000000000000000000000000949024810000000000000000000118375000000000000000000000000000851968140000000000000000000118362500000000000000000000000000879589170000000000000000000118350000000000000000000000000000867089780000000000000000000118337500000000000000000000000000844775010000000000000000000118325000000000000000000000000000965119510000000000000000000118312500000000000000000000000000897079140000000000000000000118300000000000000000000000000000885286080000000000000000000118287500000000000000000000000000890851210000000000000000000118275000000000000000000000000000961217950000000000000000000118262500000000000000000000000000894885660000000000000000000118250000000000000000000000000000926120000000000000000000000118237500000000000000000000000000983164880000000000000000000118225000000000000000000000000000963329360000000000000000000118212500000000000000000000000000933351860000000000000000000118200000000000000000000000000001009607000000000000000000000118187500000000000000000000000000803480370000000000000000000118175000000000000000000000000000913579630000000000000000000118162500000000000000000000000000930806100000000000000000000118150000000000000000000000000000930420380000000000000000000118137500000000000000000000000000994055800000000000000000000118125000000000000000000000000001011329300000000000000000000118112500000000000000000000000001051481700000000000000000000118100000000000000000000000000001002773900000000000000000000118087500000000000000000000000000840474710000000000000000000118075000000000000000000000000000848628290000000000000000000118062500000000000000000000000000905102420000000000000000000118050000000000000000000000000000931696440000000000000000000118037500000000000000000000000000932277370000000000000000000118025000000000000000000000000000873275730000000000000000000118012500000000000000000000000000904016280000000000000000000118000000000000000000000000000000975783150000000000000000000117987500000000000000000000000000955148790000000000000000000117975000000000000000000000000001003982600000000000000000000117962500000000000000000000000001008718100000000000000000000117950000000000000000000000000001057980600000000000000000000117937500000000000000000000000000968176900000000000000000000117925000000000000000000000000000967344260000000000000000000117912500000000000000000000000000920781450000000000000000000117900000000000000000000000000000912331710000000000000000000117887500000000000000000000000000939102940000000000000000000117875000000000000000000000000000883130530000000000000000000117862500000000000000000000000000951003580000000000000000000117850000000000000000000000000000946800400000000000000000000117837500000000000000000000000000923492390000000000000000000117825000000000000000000000000000942831640000000000000000000117812500000000000000000000000001003158300000000000000000000117800000000000000000000,
    894252340000000000000000000119387500000000000000000000000000990055650000000000000000000119375000000000000000000000000000955272780000000000000000000119362500000000000000000000000000866955080000000000000000000119350000000000000000000000000000926019950000000000000000000119337500000000000000000000000000901361460000000000000000000119325000000000000000000000000000914915600000000000000000000119312500000000000000000000000000943716110000000000000000000119300000000000000000000000000000893434320000000000000000000119287500000000000000000000000000890742270000000000000000000119275000000000000000000000000000954128470000000000000000000119262500000000000000000000000000989922060000000000000000000119250000000000000000000000000000905338940000000000000000000119237500000000000000000000000000905825900000000000000000000119225000000000000000000000000000973957820000000000000000000119212500000000000000000000000001016301100000000000000000000119200000000000000000000000000001058397800000000000000000000119187500000000000000000000000001078364700000000000000000000119175000000000000000000000000001018798900000000000000000000119162500000000000000000000000001037500400000000000000000000119150000000000000000000000000000944502070000000000000000000119137500000000000000000000000000869010930000000000000000000119125000000000000000000000000000915004090000000000000000000119112500000000000000000000000000976597810000000000000000000119100000000000000000000000000000968006890000000000000000000119087500000000000000000000000000973975960000000000000000000119075000000000000000000000000000896107600000000000000000000119062500000000000000000000000000835375360000000000000000000119050000000000000000000000000000940579350000000000000000000119037500000000000000000000000000981587490000000000000000000119025000000000000000000000000000918988700000000000000000000119012500000000000000000000000000947228420000000000000000000119000000000000000000000000000000971318260000000000000000000118987500000000000000000000000000949678390000000000000000000118975000000000000000000000000000863584370000000000000000000118962500000000000000000000000000932480100000000000000000000118950000000000000000000000000000936151350000000000000000000118937500000000000000000000000000898106860000000000000000000118925000000000000000000000000000959429660000000000000000000118912500000000000000000000000000960552940000000000000000000118900000000000000000000000000000944517690000000000000000000118887500000000000000000000000000979979950000000000000000000118875000000000000000000000000000887650410000000000000000000118862500000000000000000000000000868337040000000000000000000118850000000000000000000000000000917826150000000000000000000118837500000000000000000000000000943993970000000000000000000118825000000000000000000000000001004000000000000000000000000118812500000000000000000000000000941959510000000000000000000118800000000000000000000000000000911966910000000000000000000118787500000000000000000000000000890406390000000000000000000118775000000000000000000000000000869979690000000000000000000118762500000000000000000000000000919869850000000000000000000118750000000000000000000000000000907196690000000000000000000118737500000000000000000000000000911715400000000000000000000118725000000000000000000000000000876711980000000000000000000118712500000000000000000000000000891497210000000000000000000118700000000000000000000000000000870546250000000000000000000118687500000000000000000000000000855909940000000000000000000118675000000000000000000000000000956436110000000000000000000118662500000000000000000000000001038450500000000000000000000118650000000000000000000000000000950126820000000000000000000118637500000000000000000000000000879334820000000000000000000118625000000000000000000000000000934608610000000000000000000118612500000000000000000000000000914766710000000000000000000118600000000000000000000,
    1073669200000000000000000000120187500000000000000000000000000998905630000000000000000000120175000000000000000000000000000983131380000000000000000000120162500000000000000000000000000927604620000000000000000000120150000000000000000000000000000950062950000000000000000000120137500000000000000000000000000998641230000000000000000000120125000000000000000000000000000933534220000000000000000000120112500000000000000000000000000937003390000000000000000000120100000000000000000000000000001024479100000000000000000000120087500000000000000000000000000965777920000000000000000000120075000000000000000000000000000920680710000000000000000000120062500000000000000000000000000936672520000000000000000000120050000000000000000000000000000938974660000000000000000000120037500000000000000000000000000901541400000000000000000000120025000000000000000000000000000901021340000000000000000000120012500000000000000000000000000981462660000000000000000000120000000000000000000000000000000944746960000000000000000000119987500000000000000000000000000905404570000000000000000000119975000000000000000000000000000891598740000000000000000000119962500000000000000000000000000927363760000000000000000000119950000000000000000000000000000886584630000000000000000000119937500000000000000000000000000928757280000000000000000000119925000000000000000000000000000932280900000000000000000000119912500000000000000000000000000956740320000000000000000000119900000000000000000000000000001010383800000000000000000000119887500000000000000000000000000940823120000000000000000000119875000000000000000000000000000872410830000000000000000000119862500000000000000000000000000911840800000000000000000000119850000000000000000000000000000946500940000000000000000000119837500000000000000000000000000950998880000000000000000000119825000000000000000000000000001055392900000000000000000000119812500000000000000000000000001026228900000000000000000000119800000000000000000000000000000905394740000000000000000000119787500000000000000000000000000963916680000000000000000000119775000000000000000000000000000969022740000000000000000000119762500000000000000000000000001002069500000000000000000000119750000000000000000000000000000912648520000000000000000000119737500000000000000000000000000879154690000000000000000000119725000000000000000000000000000930892930000000000000000000119712500000000000000000000000000869424610000000000000000000119700000000000000000000000000000870235210000000000000000000119687500000000000000000000000000846957850000000000000000000119675000000000000000000000000000935478470000000000000000000119662500000000000000000000000000975259220000000000000000000119650000000000000000000000000000934089900000000000000000000119637500000000000000000000000000920122320000000000000000000119625000000000000000000000000000975077400000000000000000000119612500000000000000000000000000981416500000000000000000000119600000000000000000000000000000948180210000000000000000000119587500000000000000000000000000905980370000000000000000000119575000000000000000000000000000883880180000000000000000000119562500000000000000000000000000932999540000000000000000000119550000000000000000000000000000821629160000000000000000000119537500000000000000000000000000825353510000000000000000000119525000000000000000000000000000892277980000000000000000000119512500000000000000000000000000880616320000000000000000000119500000000000000000000000000000908258410000000000000000000119487500000000000000000000000000939504830000000000000000000119475000000000000000000000000000892766470000000000000000000119462500000000000000000000000000934449730000000000000000000119450000000000000000000000000000963962610000000000000000000119437500000000000000000000000000911208910000000000000000000119425000000000000000000000000000931651910000000000000000000119412500000000000000000000000000897398500000000000000000000119400000000000000000000,
    889093970000000000000000000120987500000000000000000000000000907037700000000000000000000120975000000000000000000000000001018077700000000000000000000120962500000000000000000000000000957063790000000000000000000120950000000000000000000000000000930986750000000000000000000120937500000000000000000000000001046661200000000000000000000120925000000000000000000000000001055344100000000000000000000120912500000000000000000000000000949418080000000000000000000120900000000000000000000000000000994207390000000000000000000120887500000000000000000000000000974385640000000000000000000120875000000000000000000000000000956536570000000000000000000120862500000000000000000000000000914820380000000000000000000120850000000000000000000000000000920814200000000000000000000120837500000000000000000000000000957384470000000000000000000120825000000000000000000000000000974797050000000000000000000120812500000000000000000000000001022075800000000000000000000120800000000000000000000000000001013387400000000000000000000120787500000000000000000000000000995534750000000000000000000120775000000000000000000000000001031390800000000000000000000120762500000000000000000000000000951402860000000000000000000120750000000000000000000000000000925181720000000000000000000120737500000000000000000000000000923635990000000000000000000120725000000000000000000000000000865316330000000000000000000120712500000000000000000000000000838873610000000000000000000120700000000000000000000000000000945832170000000000000000000120687500000000000000000000000000997697020000000000000000000120675000000000000000000000000000938361030000000000000000000120662500000000000000000000000000916731690000000000000000000120650000000000000000000000000000954696730000000000000000000120637500000000000000000000000000953482900000000000000000000120625000000000000000000000000000872907410000000000000000000120612500000000000000000000000000924785300000000000000000000120600000000000000000000000000000951210790000000000000000000120587500000000000000000000000000898380900000000000000000000120575000000000000000000000000000927164370000000000000000000120562500000000000000000000000001007830600000000000000000000120550000000000000000000000000000967669200000000000000000000120537500000000000000000000000000983901450000000000000000000120525000000000000000000000000000958629690000000000000000000120512500000000000000000000000000912127090000000000000000000120500000000000000000000000000000894046050000000000000000000120487500000000000000000000000000911697000000000000000000000120475000000000000000000000000001006662100000000000000000000120462500000000000000000000000001027183200000000000000000000120450000000000000000000000000000985685770000000000000000000120437500000000000000000000000000966085910000000000000000000120425000000000000000000000000000980751620000000000000000000120412500000000000000000000000000862666860000000000000000000120400000000000000000000000000000887578960000000000000000000120387500000000000000000000000000884747110000000000000000000120375000000000000000000000000000906826360000000000000000000120362500000000000000000000000000878059300000000000000000000120350000000000000000000000000000891986020000000000000000000120337500000000000000000000000000951324490000000000000000000120325000000000000000000000000000968800400000000000000000000120312500000000000000000000000000859034180000000000000000000120300000000000000000000000000000827355980000000000000000000120287500000000000000000000000000930142180000000000000000000120275000000000000000000000000000998343420000000000000000000120262500000000000000000000000000918731070000000000000000000120250000000000000000000000000000885372720000000000000000000120237500000000000000000000000000831912220000000000000000000120225000000000000000000000000000956010480000000000000000000120212500000000000000000000000001063875500000000000000000000120200000000000000000000,
    964607060000000000000000000121787500000000000000000000000000879698070000000000000000000121775000000000000000000000000000886703110000000000000000000121762500000000000000000000000000945169490000000000000000000121750000000000000000000000000000952371790000000000000000000121737500000000000000000000000000985733400000000000000000000121725000000000000000000000000000956483820000000000000000000121712500000000000000000000000001020467800000000000000000000121700000000000000000000000000001020014100000000000000000000121687500000000000000000000000000984021510000000000000000000121675000000000000000000000000001069988500000000000000000000121662500000000000000000000000000991546670000000000000000000121650000000000000000000000000000934227270000000000000000000121637500000000000000000000000000965207280000000000000000000121625000000000000000000000000000989160470000000000000000000121612500000000000000000000000000935849350000000000000000000121600000000000000000000000000000980624630000000000000000000121587500000000000000000000000001020285000000000000000000000121575000000000000000000000000001010745500000000000000000000121562500000000000000000000000000965177990000000000000000000121550000000000000000000000000000930420330000000000000000000121537500000000000000000000000000868149820000000000000000000121525000000000000000000000000000866838150000000000000000000121512500000000000000000000000000966970750000000000000000000121500000000000000000000000000000879972990000000000000000000121487500000000000000000000000000878262880000000000000000000121475000000000000000000000000000957612750000000000000000000121462500000000000000000000000000990353360000000000000000000121450000000000000000000000000000982832400000000000000000000121437500000000000000000000000000925118650000000000000000000121425000000000000000000000000000915074300000000000000000000121412500000000000000000000000000966364430000000000000000000121400000000000000000000000000000944206450000000000000000000121387500000000000000000000000000947386710000000000000000000121375000000000000000000000000001002055600000000000000000000121362500000000000000000000000000965223080000000000000000000121350000000000000000000000000000898138830000000000000000000121337500000000000000000000000000876747360000000000000000000121325000000000000000000000000000949833860000000000000000000121312500000000000000000000000000943683700000000000000000000121300000000000000000000000000000938646690000000000000000000121287500000000000000000000000000912902630000000000000000000121275000000000000000000000000000960558220000000000000000000121262500000000000000000000000000905824270000000000000000000121250000000000000000000000000000911451670000000000000000000121237500000000000000000000000000990386850000000000000000000121225000000000000000000000000000919839890000000000000000000121212500000000000000000000000000959615170000000000000000000121200000000000000000000000000001002470200000000000000000000121187500000000000000000000000000998806580000000000000000000121175000000000000000000000000000991165770000000000000000000121162500000000000000000000000000990559330000000000000000000121150000000000000000000000000000936611430000000000000000000121137500000000000000000000000000971489250000000000000000000121125000000000000000000000000000995886520000000000000000000121112500000000000000000000000001014074500000000000000000000121100000000000000000000000000001004577100000000000000000000121087500000000000000000000000001000864500000000000000000000121075000000000000000000000000001019682100000000000000000000121062500000000000000000000000001007826400000000000000000000121050000000000000000000000000000919703520000000000000000000121037500000000000000000000000000947192060000000000000000000121025000000000000000000000000000988048970000000000000000000121012500000000000000000000000000904161300000000000000000000121000000000000000000000,
    1037425800000000000000000000122587500000000000000000000000001028943400000000000000000000122575000000000000000000000000000929480270000000000000000000122562500000000000000000000000000950135100000000000000000000122550000000000000000000000000000901829220000000000000000000122537500000000000000000000000000994346930000000000000000000122525000000000000000000000000000905354480000000000000000000122512500000000000000000000000001013925900000000000000000000122500000000000000000000000000001080674800000000000000000000122487500000000000000000000000001040466500000000000000000000122475000000000000000000000000001007812500000000000000000000122462500000000000000000000000000959467930000000000000000000122450000000000000000000000000000977570780000000000000000000122437500000000000000000000000000957317400000000000000000000122425000000000000000000000000000951106010000000000000000000122412500000000000000000000000000938322210000000000000000000122400000000000000000000000000000906663760000000000000000000122387500000000000000000000000000913134790000000000000000000122375000000000000000000000000000896250040000000000000000000122362500000000000000000000000000965406840000000000000000000122350000000000000000000000000000933953290000000000000000000122337500000000000000000000000000946301340000000000000000000122325000000000000000000000000000916896580000000000000000000122312500000000000000000000000000920244990000000000000000000122300000000000000000000000000000955318870000000000000000000122287500000000000000000000000001007578300000000000000000000122275000000000000000000000000001028572200000000000000000000122262500000000000000000000000000955073580000000000000000000122250000000000000000000000000000925083540000000000000000000122237500000000000000000000000000976815180000000000000000000122225000000000000000000000000000947465690000000000000000000122212500000000000000000000000000884473690000000000000000000122200000000000000000000000000000828086060000000000000000000122187500000000000000000000000000937160490000000000000000000122175000000000000000000000000001021832900000000000000000000122162500000000000000000000000000973647630000000000000000000122150000000000000000000000000000996102630000000000000000000122137500000000000000000000000000973779010000000000000000000122125000000000000000000000000000946997360000000000000000000122112500000000000000000000000000964711580000000000000000000122100000000000000000000000000000977446240000000000000000000122087500000000000000000000000000949721930000000000000000000122075000000000000000000000000000911298560000000000000000000122062500000000000000000000000000947379000000000000000000000122050000000000000000000000000000974627190000000000000000000122037500000000000000000000000001033490400000000000000000000122025000000000000000000000000000966276510000000000000000000122012500000000000000000000000000927596180000000000000000000122000000000000000000000000000000988135880000000000000000000121987500000000000000000000000001035756700000000000000000000121975000000000000000000000000000994718720000000000000000000121962500000000000000000000000000992182580000000000000000000121950000000000000000000000000000962962410000000000000000000121937500000000000000000000000000936682240000000000000000000121925000000000000000000000000000910839040000000000000000000121912500000000000000000000000000867651120000000000000000000121900000000000000000000000000000863402190000000000000000000121887500000000000000000000000000961489100000000000000000000121875000000000000000000000000000924085210000000000000000000121862500000000000000000000000000883561160000000000000000000121850000000000000000000000000000950002610000000000000000000121837500000000000000000000000001064593000000000000000000000121825000000000000000000000000000984644760000000000000000000121812500000000000000000000000001045341200000000000000000000121800000000000000000000,
    925747480000000000000000000123387500000000000000000000000000965738130000000000000000000123375000000000000000000000000000942769290000000000000000000123362500000000000000000000000000915959770000000000000000000123350000000000000000000000000000878943080000000000000000000123337500000000000000000000000000857761380000000000000000000123325000000000000000000000000000962658710000000000000000000123312500000000000000000000000000950391970000000000000000000123300000000000000000000000000000906855610000000000000000000123287500000000000000000000000000978031410000000000000000000123275000000000000000000000000001026804800000000000000000000123262500000000000000000000000000972946190000000000000000000123250000000000000000000000000000838237990000000000000000000123237500000000000000000000000000816008370000000000000000000123225000000000000000000000000000944342410000000000000000000123212500000000000000000000000000931104990000000000000000000123200000000000000000000000000000932765280000000000000000000123187500000000000000000000000000982022320000000000000000000123175000000000000000000000000000999541940000000000000000000123162500000000000000000000000001032039400000000000000000000123150000000000000000000000000000960181220000000000000000000123137500000000000000000000000000930999830000000000000000000123125000000000000000000000000000932429290000000000000000000123112500000000000000000000000000900745830000000000000000000123100000000000000000000000000000877269060000000000000000000123087500000000000000000000000000905741180000000000000000000123075000000000000000000000000000903436800000000000000000000123062500000000000000000000000000916624820000000000000000000123050000000000000000000000000000934591240000000000000000000123037500000000000000000000000000914248440000000000000000000123025000000000000000000000000000981862310000000000000000000123012500000000000000000000000000928677870000000000000000000123000000000000000000000000000000911827030000000000000000000122987500000000000000000000000000988902610000000000000000000122975000000000000000000000000000992894420000000000000000000122962500000000000000000000000000983109430000000000000000000122950000000000000000000000000000872529030000000000000000000122937500000000000000000000000000931782480000000000000000000122925000000000000000000000000000958981330000000000000000000122912500000000000000000000000000973671170000000000000000000122900000000000000000000000000000897476190000000000000000000122887500000000000000000000000000950483240000000000000000000122875000000000000000000000000001027614200000000000000000000122862500000000000000000000000001020472500000000000000000000122850000000000000000000000000000994970530000000000000000000122837500000000000000000000000000967852260000000000000000000122825000000000000000000000000000986247010000000000000000000122812500000000000000000000000000947435570000000000000000000122800000000000000000000000000001010024200000000000000000000122787500000000000000000000000000978642540000000000000000000122775000000000000000000000000000985234670000000000000000000122762500000000000000000000000000990299160000000000000000000122750000000000000000000000000001002597300000000000000000000122737500000000000000000000000000939601250000000000000000000122725000000000000000000000000000947486130000000000000000000122712500000000000000000000000000989088360000000000000000000122700000000000000000000000000000892932080000000000000000000122687500000000000000000000000000910788910000000000000000000122675000000000000000000000000000982054260000000000000000000122662500000000000000000000000000999279570000000000000000000122650000000000000000000000000000955184600000000000000000000122637500000000000000000000000000997513840000000000000000000122625000000000000000000000000000966659000000000000000000000122612500000000000000000000000000916977140000000000000000000122600000000000000000000,
    1026713100000000000000000000124187500000000000000000000000000965162870000000000000000000124175000000000000000000000000000978028160000000000000000000124162500000000000000000000000000985562550000000000000000000124150000000000000000000000000000989447950000000000000000000124137500000000000000000000000000946821980000000000000000000124125000000000000000000000000000866789000000000000000000000124112500000000000000000000000000892571530000000000000000000124100000000000000000000000000001017875000000000000000000000124087500000000000000000000000001043743800000000000000000000124075000000000000000000000000000978236310000000000000000000124062500000000000000000000000000978560620000000000000000000124050000000000000000000000000000936876220000000000000000000124037500000000000000000000000000929871060000000000000000000124025000000000000000000000000000944206250000000000000000000124012500000000000000000000000000960964440000000000000000000124000000000000000000000000000000990162790000000000000000000123987500000000000000000000000000910052190000000000000000000123975000000000000000000000000000925259890000000000000000000123962500000000000000000000000000951210730000000000000000000123950000000000000000000000000000917448560000000000000000000123937500000000000000000000000000936989140000000000000000000123925000000000000000000000000000960292660000000000000000000123912500000000000000000000000001033832700000000000000000000123900000000000000000000000000001027520800000000000000000000123887500000000000000000000000000967663970000000000000000000123875000000000000000000000000000986483080000000000000000000123862500000000000000000000000001025988500000000000000000000123850000000000000000000000000000948648700000000000000000000123837500000000000000000000000000930085750000000000000000000123825000000000000000000000000001040644000000000000000000000123812500000000000000000000000001001581300000000000000000000123800000000000000000000000000000998274720000000000000000000123787500000000000000000000000001019998700000000000000000000123775000000000000000000000000001022617200000000000000000000123762500000000000000000000000001016990800000000000000000000123750000000000000000000000000000991011400000000000000000000123737500000000000000000000000001070367900000000000000000000123725000000000000000000000000001017896900000000000000000000123712500000000000000000000000000985631020000000000000000000123700000000000000000000000000000951284960000000000000000000123687500000000000000000000000000947814260000000000000000000123675000000000000000000000000000995096140000000000000000000123662500000000000000000000000000993428370000000000000000000123650000000000000000000000000000952315880000000000000000000123637500000000000000000000000001008315000000000000000000000123625000000000000000000000000001007707000000000000000000000123612500000000000000000000000000955856040000000000000000000123600000000000000000000000000000951801280000000000000000000123587500000000000000000000000000945126520000000000000000000123575000000000000000000000000000975887510000000000000000000123562500000000000000000000000000942433230000000000000000000123550000000000000000000000000000905986070000000000000000000123537500000000000000000000000000971649790000000000000000000123525000000000000000000000000001004181300000000000000000000123512500000000000000000000000000984544820000000000000000000123500000000000000000000000000001004106100000000000000000000123487500000000000000000000000000994794840000000000000000000123475000000000000000000000000001067975100000000000000000000123462500000000000000000000000000972465930000000000000000000123450000000000000000000000000000917409530000000000000000000123437500000000000000000000000000924796990000000000000000000123425000000000000000000000000000962515680000000000000000000123412500000000000000000000000000922797080000000000000000000123400000000000000000000,
    957625890000000000000000000124987500000000000000000000000000924612360000000000000000000124975000000000000000000000000001017110200000000000000000000124962500000000000000000000000000967118360000000000000000000124950000000000000000000000000000940267190000000000000000000124937500000000000000000000000000998098060000000000000000000124925000000000000000000000000000978267420000000000000000000124912500000000000000000000000001032597100000000000000000000124900000000000000000000000000001003750100000000000000000000124887500000000000000000000000000897259090000000000000000000124875000000000000000000000000000938258380000000000000000000124862500000000000000000000000001009707200000000000000000000124850000000000000000000000000000995847940000000000000000000124837500000000000000000000000001000380500000000000000000000124825000000000000000000000000000983308490000000000000000000124812500000000000000000000000000975133880000000000000000000124800000000000000000000000000000963135060000000000000000000124787500000000000000000000000000994570030000000000000000000124775000000000000000000000000001007448700000000000000000000124762500000000000000000000000000948274080000000000000000000124750000000000000000000000000000963419380000000000000000000124737500000000000000000000000000966015110000000000000000000124725000000000000000000000000000952463890000000000000000000124712500000000000000000000000000979257860000000000000000000124700000000000000000000000000001016552100000000000000000000124687500000000000000000000000001030112000000000000000000000124675000000000000000000000000000993684710000000000000000000124662500000000000000000000000000963996280000000000000000000124650000000000000000000000000000886409360000000000000000000124637500000000000000000000000000918835570000000000000000000124625000000000000000000000000000973610630000000000000000000124612500000000000000000000000001042191500000000000000000000124600000000000000000000000000001075126200000000000000000000124587500000000000000000000000001072926700000000000000000000124575000000000000000000000000001032772800000000000000000000124562500000000000000000000000000967456650000000000000000000124550000000000000000000000000000917350800000000000000000000124537500000000000000000000000000885629220000000000000000000124525000000000000000000000000000963887510000000000000000000124512500000000000000000000000000985642900000000000000000000124500000000000000000000000000001019586400000000000000000000124487500000000000000000000000001010311500000000000000000000124475000000000000000000000000001054297000000000000000000000124462500000000000000000000000001007580900000000000000000000124450000000000000000000000000000965623710000000000000000000124437500000000000000000000000000918029830000000000000000000124425000000000000000000000000000911996530000000000000000000124412500000000000000000000000000904495740000000000000000000124400000000000000000000000000000961537350000000000000000000124387500000000000000000000000001040497400000000000000000000124375000000000000000000000000001031276500000000000000000000124362500000000000000000000000000951110690000000000000000000124350000000000000000000000000000923299650000000000000000000124337500000000000000000000000000962763570000000000000000000124325000000000000000000000000000927747050000000000000000000124312500000000000000000000000000974625890000000000000000000124300000000000000000000000000000930742610000000000000000000124287500000000000000000000000000995679500000000000000000000124275000000000000000000000000001097150100000000000000000000124262500000000000000000000000001011953300000000000000000000124250000000000000000000000000000901904140000000000000000000124237500000000000000000000000000880472340000000000000000000124225000000000000000000000000000963516020000000000000000000124212500000000000000000000000000981657290000000000000000000124200000000000000000000,
    1025583700000000000000000000125787500000000000000000000000001001732900000000000000000000125775000000000000000000000000001035055600000000000000000000125762500000000000000000000000000990401780000000000000000000125750000000000000000000000000000983461280000000000000000000125737500000000000000000000000001003181000000000000000000000125725000000000000000000000000001038227400000000000000000000125712500000000000000000000000000973887690000000000000000000125700000000000000000000000000000946077670000000000000000000125687500000000000000000000000001059543500000000000000000000125675000000000000000000000000001039249000000000000000000000125662500000000000000000000000000939421040000000000000000000125650000000000000000000000000001025704900000000000000000000125637500000000000000000000000001052201200000000000000000000125625000000000000000000000000000950630080000000000000000000125612500000000000000000000000000930979160000000000000000000125600000000000000000000000000000984500180000000000000000000125587500000000000000000000000001026403600000000000000000000125575000000000000000000000000000987251930000000000000000000125562500000000000000000000000000968471810000000000000000000125550000000000000000000000000000922854970000000000000000000125537500000000000000000000000000920051300000000000000000000125525000000000000000000000000001008456900000000000000000000125512500000000000000000000000000978855800000000000000000000125500000000000000000000000000000979703350000000000000000000125487500000000000000000000000000969334530000000000000000000125475000000000000000000000000000936589830000000000000000000125462500000000000000000000000000990713080000000000000000000125450000000000000000000000000000953155620000000000000000000125437500000000000000000000000000965419550000000000000000000125425000000000000000000000000000957719930000000000000000000125412500000000000000000000000001036073000000000000000000000125400000000000000000000000000001093933600000000000000000000125387500000000000000000000000001023879700000000000000000000125375000000000000000000000000000977657970000000000000000000125362500000000000000000000000001003990700000000000000000000125350000000000000000000000000000962589340000000000000000000125337500000000000000000000000000953145700000000000000000000125325000000000000000000000000001015823500000000000000000000125312500000000000000000000000001062653000000000000000000000125300000000000000000000000000000926036250000000000000000000125287500000000000000000000000001000118500000000000000000000125275000000000000000000000000000946274910000000000000000000125262500000000000000000000000000987689210000000000000000000125250000000000000000000000000001001332000000000000000000000125237500000000000000000000000000946305340000000000000000000125225000000000000000000000000000954251540000000000000000000125212500000000000000000000000000881627800000000000000000000125200000000000000000000000000000972408910000000000000000000125187500000000000000000000000000980375210000000000000000000125175000000000000000000000000001025233200000000000000000000125162500000000000000000000000001083249900000000000000000000125150000000000000000000000000001046169000000000000000000000125137500000000000000000000000001041360100000000000000000000125125000000000000000000000000001021012000000000000000000000125112500000000000000000000000001102851900000000000000000000125100000000000000000000000000001099151300000000000000000000125087500000000000000000000000001020069900000000000000000000125075000000000000000000000000000989553060000000000000000000125062500000000000000000000000000911110030000000000000000000125050000000000000000000000000000976141820000000000000000000125037500000000000000000000000001020162900000000000000000000125025000000000000000000000000000958108420000000000000000000125012500000000000000000000000001009318900000000000000000000125000000000000000000000,
    976223770000000000000000000126587500000000000000000000000000887199450000000000000000000126575000000000000000000000000000956822460000000000000000000126562500000000000000000000000001043827200000000000000000000126550000000000000000000000000001054273800000000000000000000126537500000000000000000000000001031215800000000000000000000126525000000000000000000000000000910917910000000000000000000126512500000000000000000000000000999867780000000000000000000126500000000000000000000000000001009042600000000000000000000126487500000000000000000000000001047815100000000000000000000126475000000000000000000000000001044266400000000000000000000126462500000000000000000000000000981603830000000000000000000126450000000000000000000000000000903013100000000000000000000126437500000000000000000000000000998569510000000000000000000126425000000000000000000000000001012290000000000000000000000126412500000000000000000000000000905358190000000000000000000126400000000000000000000000000000946331580000000000000000000126387500000000000000000000000001004090200000000000000000000126375000000000000000000000000000999134810000000000000000000126362500000000000000000000000000977902870000000000000000000126350000000000000000000000000000976162730000000000000000000126337500000000000000000000000000906910130000000000000000000126325000000000000000000000000000847067160000000000000000000126312500000000000000000000000000914724480000000000000000000126300000000000000000000000000001015927600000000000000000000126287500000000000000000000000001026555900000000000000000000126275000000000000000000000000001014271500000000000000000000126262500000000000000000000000000933116790000000000000000000126250000000000000000000000000000916441240000000000000000000126237500000000000000000000000000950422850000000000000000000126225000000000000000000000000000970753430000000000000000000126212500000000000000000000000000976985880000000000000000000126200000000000000000000000000001026996300000000000000000000126187500000000000000000000000000944252210000000000000000000126175000000000000000000000000000946844690000000000000000000126162500000000000000000000000000993908130000000000000000000126150000000000000000000000000000967413870000000000000000000126137500000000000000000000000000980205000000000000000000000126125000000000000000000000000000994093290000000000000000000126112500000000000000000000000001006742300000000000000000000126100000000000000000000000000000966764440000000000000000000126087500000000000000000000000000929166090000000000000000000126075000000000000000000000000001017868000000000000000000000126062500000000000000000000000001052693300000000000000000000126050000000000000000000000000001068580900000000000000000000126037500000000000000000000000001005746600000000000000000000126025000000000000000000000000000981218750000000000000000000126012500000000000000000000000001025380500000000000000000000126000000000000000000000000000001072820600000000000000000000125987500000000000000000000000000962675350000000000000000000125975000000000000000000000000000967711830000000000000000000125962500000000000000000000000001014126800000000000000000000125950000000000000000000000000000945672230000000000000000000125937500000000000000000000000001002689700000000000000000000125925000000000000000000000000001018599600000000000000000000125912500000000000000000000000000996730050000000000000000000125900000000000000000000000000001060884300000000000000000000125887500000000000000000000000000914147610000000000000000000125875000000000000000000000000000978545910000000000000000000125862500000000000000000000000001000686400000000000000000000125850000000000000000000000000000927272640000000000000000000125837500000000000000000000000000916948520000000000000000000125825000000000000000000000000000969828670000000000000000000125812500000000000000000000000000998708580000000000000000000125800000000000000000000,
    1067038500000000000000000000127387500000000000000000000000001071579600000000000000000000127375000000000000000000000000000970405740000000000000000000127362500000000000000000000000000976427990000000000000000000127350000000000000000000000000000877271000000000000000000000127337500000000000000000000000000991675200000000000000000000127325000000000000000000000000000980142960000000000000000000127312500000000000000000000000000944834370000000000000000000127300000000000000000000000000000957523020000000000000000000127287500000000000000000000000001031717800000000000000000000127275000000000000000000000000001065807900000000000000000000127262500000000000000000000000000958470850000000000000000000127250000000000000000000000000000889082050000000000000000000127237500000000000000000000000000913872040000000000000000000127225000000000000000000000000000934826490000000000000000000127212500000000000000000000000000875300680000000000000000000127200000000000000000000000000000910783920000000000000000000127187500000000000000000000000000921443970000000000000000000127175000000000000000000000000000972051420000000000000000000127162500000000000000000000000000988117600000000000000000000127150000000000000000000000000001000014800000000000000000000127137500000000000000000000000000994100460000000000000000000127125000000000000000000000000000984965530000000000000000000127112500000000000000000000000000949074910000000000000000000127100000000000000000000000000000908562150000000000000000000127087500000000000000000000000000958082090000000000000000000127075000000000000000000000000001008323700000000000000000000127062500000000000000000000000001074764300000000000000000000127050000000000000000000000000001006400100000000000000000000127037500000000000000000000000000984760740000000000000000000127025000000000000000000000000001032433400000000000000000000127012500000000000000000000000000984309240000000000000000000127000000000000000000000000000000966212700000000000000000000126987500000000000000000000000000954633350000000000000000000126975000000000000000000000000000888922380000000000000000000126962500000000000000000000000000959270290000000000000000000126950000000000000000000000000000935306830000000000000000000126937500000000000000000000000000963087190000000000000000000126925000000000000000000000000001042143700000000000000000000126912500000000000000000000000001087504600000000000000000000126900000000000000000000000000001018954000000000000000000000126887500000000000000000000000000981784540000000000000000000126875000000000000000000000000000988519370000000000000000000126862500000000000000000000000001011724500000000000000000000126850000000000000000000000000001034862500000000000000000000126837500000000000000000000000001079640100000000000000000000126825000000000000000000000000001091893100000000000000000000126812500000000000000000000000001009769500000000000000000000126800000000000000000000000000000951973480000000000000000000126787500000000000000000000000000975865970000000000000000000126775000000000000000000000000000977799240000000000000000000126762500000000000000000000000000917675540000000000000000000126750000000000000000000000000000870002220000000000000000000126737500000000000000000000000000984437700000000000000000000126725000000000000000000000000001063366900000000000000000000126712500000000000000000000000001031991900000000000000000000126700000000000000000000000000001015137900000000000000000000126687500000000000000000000000000972287900000000000000000000126675000000000000000000000000000993561620000000000000000000126662500000000000000000000000001031466000000000000000000000126650000000000000000000000000001030203400000000000000000000126637500000000000000000000000001018158600000000000000000000126625000000000000000000000000001000492300000000000000000000126612500000000000000000000000000962612190000000000000000000126600000000000000000000,
    1031461300000000000000000000128187500000000000000000000000001044735000000000000000000000128175000000000000000000000000000976052890000000000000000000128162500000000000000000000000000974940070000000000000000000128150000000000000000000000000000906961240000000000000000000128137500000000000000000000000000909789380000000000000000000128125000000000000000000000000000981585950000000000000000000128112500000000000000000000000000977075290000000000000000000128100000000000000000000000000000942141780000000000000000000128087500000000000000000000000000889377620000000000000000000128075000000000000000000000000000964302240000000000000000000128062500000000000000000000000000926125650000000000000000000128050000000000000000000000000001023031000000000000000000000128037500000000000000000000000000996025990000000000000000000128025000000000000000000000000000974023170000000000000000000128012500000000000000000000000001014681000000000000000000000128000000000000000000000000000001017889300000000000000000000127987500000000000000000000000000928465190000000000000000000127975000000000000000000000000000960420520000000000000000000127962500000000000000000000000000942473750000000000000000000127950000000000000000000000000001003490500000000000000000000127937500000000000000000000000000919579850000000000000000000127925000000000000000000000000000960635790000000000000000000127912500000000000000000000000000911528260000000000000000000127900000000000000000000000000001004880100000000000000000000127887500000000000000000000000000994723880000000000000000000127875000000000000000000000000000972885820000000000000000000127862500000000000000000000000001009941000000000000000000000127850000000000000000000000000001023817500000000000000000000127837500000000000000000000000001065672600000000000000000000127825000000000000000000000000001092059800000000000000000000127812500000000000000000000000001071736100000000000000000000127800000000000000000000000000000968729740000000000000000000127787500000000000000000000000000930454720000000000000000000127775000000000000000000000000000930012580000000000000000000127762500000000000000000000000000950929330000000000000000000127750000000000000000000000000001032642000000000000000000000127737500000000000000000000000001026507000000000000000000000127725000000000000000000000000001010088500000000000000000000127712500000000000000000000000000992058570000000000000000000127700000000000000000000000000000950518300000000000000000000127687500000000000000000000000001006466700000000000000000000127675000000000000000000000000001001100300000000000000000000127662500000000000000000000000001014186400000000000000000000127650000000000000000000000000000973750200000000000000000000127637500000000000000000000000001006379900000000000000000000127625000000000000000000000000000930299820000000000000000000127612500000000000000000000000000829373900000000000000000000127600000000000000000000000000000878917450000000000000000000127587500000000000000000000000000942173510000000000000000000127575000000000000000000000000000970486670000000000000000000127562500000000000000000000000000944570590000000000000000000127550000000000000000000000000000973215930000000000000000000127537500000000000000000000000000950615050000000000000000000127525000000000000000000000000000946756240000000000000000000127512500000000000000000000000000982036870000000000000000000127500000000000000000000000000001116717900000000000000000000127487500000000000000000000000001053535700000000000000000000127475000000000000000000000000000962374290000000000000000000127462500000000000000000000000000975539560000000000000000000127450000000000000000000000000000997742080000000000000000000127437500000000000000000000000001069215200000000000000000000127425000000000000000000000000000988555680000000000000000000127412500000000000000000000000000957578960000000000000000000127400000000000000000000,
    959175720000000000000000000128987500000000000000000000000000876327790000000000000000000128975000000000000000000000000001021749500000000000000000000128962500000000000000000000000001009654700000000000000000000128950000000000000000000000000000957963110000000000000000000128937500000000000000000000000000949568010000000000000000000128925000000000000000000000000000985977250000000000000000000128912500000000000000000000000000965420330000000000000000000128900000000000000000000000000000982276610000000000000000000128887500000000000000000000000001013487000000000000000000000128875000000000000000000000000001046335500000000000000000000128862500000000000000000000000001024811300000000000000000000128850000000000000000000000000001002852000000000000000000000128837500000000000000000000000001058636500000000000000000000128825000000000000000000000000001059976100000000000000000000128812500000000000000000000000001032235200000000000000000000128800000000000000000000000000000996434330000000000000000000128787500000000000000000000000000902318330000000000000000000128775000000000000000000000000000950247560000000000000000000128762500000000000000000000000000983450170000000000000000000128750000000000000000000000000000952493170000000000000000000128737500000000000000000000000000962371820000000000000000000128725000000000000000000000000001039121200000000000000000000128712500000000000000000000000000989500150000000000000000000128700000000000000000000000000001016437300000000000000000000128687500000000000000000000000000968541970000000000000000000128675000000000000000000000000000956108690000000000000000000128662500000000000000000000000000909061760000000000000000000128650000000000000000000000000001054964100000000000000000000128637500000000000000000000000001107285300000000000000000000128625000000000000000000000000001012778000000000000000000000128612500000000000000000000000001048162000000000000000000000128600000000000000000000000000001016718600000000000000000000128587500000000000000000000000000969501500000000000000000000128575000000000000000000000000001036315500000000000000000000128562500000000000000000000000001024085300000000000000000000128550000000000000000000000000001028375200000000000000000000128537500000000000000000000000001049212200000000000000000000128525000000000000000000000000001027606300000000000000000000128512500000000000000000000000001021589500000000000000000000128500000000000000000000000000000960437020000000000000000000128487500000000000000000000000000908632730000000000000000000128475000000000000000000000000000951247930000000000000000000128462500000000000000000000000001028798300000000000000000000128450000000000000000000000000001041551900000000000000000000128437500000000000000000000000000939744040000000000000000000128425000000000000000000000000000966478830000000000000000000128412500000000000000000000000001004271800000000000000000000128400000000000000000000000000001088089500000000000000000000128387500000000000000000000000001009314400000000000000000000128375000000000000000000000000000941799230000000000000000000128362500000000000000000000000000878204180000000000000000000128350000000000000000000000000000922180780000000000000000000128337500000000000000000000000001035465300000000000000000000128325000000000000000000000000000979523790000000000000000000128312500000000000000000000000000971041690000000000000000000128300000000000000000000000000000999155030000000000000000000128287500000000000000000000000000989004410000000000000000000128275000000000000000000000000000973456770000000000000000000128262500000000000000000000000000916933230000000000000000000128250000000000000000000000000000990313860000000000000000000128237500000000000000000000000000974784190000000000000000000128225000000000000000000000000000965467350000000000000000000128212500000000000000000000000001013639200000000000000000000128200000000000000000000,
    1009702000000000000000000000129787500000000000000000000000000978394810000000000000000000129775000000000000000000000000001002218700000000000000000000129762500000000000000000000000001029688200000000000000000000129750000000000000000000000000001037892400000000000000000000129737500000000000000000000000001027641600000000000000000000129725000000000000000000000000000985461670000000000000000000129712500000000000000000000000000965607720000000000000000000129700000000000000000000000000001022145000000000000000000000129687500000000000000000000000001003924500000000000000000000129675000000000000000000000000001058954800000000000000000000129662500000000000000000000000001044290500000000000000000000129650000000000000000000000000001008524000000000000000000000129637500000000000000000000000001009517300000000000000000000129625000000000000000000000000001048212300000000000000000000129612500000000000000000000000001064825400000000000000000000129600000000000000000000000000000935852120000000000000000000129587500000000000000000000000000972101690000000000000000000129575000000000000000000000000001000397100000000000000000000129562500000000000000000000000001024022300000000000000000000129550000000000000000000000000000986185560000000000000000000129537500000000000000000000000001035576800000000000000000000129525000000000000000000000000000985374870000000000000000000129512500000000000000000000000001036024000000000000000000000129500000000000000000000000000001063843800000000000000000000129487500000000000000000000000001105532200000000000000000000129475000000000000000000000000001031418400000000000000000000129462500000000000000000000000000961447350000000000000000000129450000000000000000000000000000895072800000000000000000000129437500000000000000000000000000928038170000000000000000000129425000000000000000000000000000968907170000000000000000000129412500000000000000000000000000953826760000000000000000000129400000000000000000000000000000966496350000000000000000000129387500000000000000000000000000970119550000000000000000000129375000000000000000000000000001044350700000000000000000000129362500000000000000000000000000990061170000000000000000000129350000000000000000000000000000942851510000000000000000000129337500000000000000000000000000860121650000000000000000000129325000000000000000000000000000943181930000000000000000000129312500000000000000000000000000971060000000000000000000000129300000000000000000000000000000986342470000000000000000000129287500000000000000000000000000996455890000000000000000000129275000000000000000000000000001023690500000000000000000000129262500000000000000000000000000931837410000000000000000000129250000000000000000000000000000879838320000000000000000000129237500000000000000000000000000907799350000000000000000000129225000000000000000000000000000969494320000000000000000000129212500000000000000000000000001007297500000000000000000000129200000000000000000000000000000949799300000000000000000000129187500000000000000000000000000934553300000000000000000000129175000000000000000000000000001022363500000000000000000000129162500000000000000000000000000924793230000000000000000000129150000000000000000000000000000954283610000000000000000000129137500000000000000000000000001098844100000000000000000000129125000000000000000000000000001159544600000000000000000000129112500000000000000000000000001059679400000000000000000000129100000000000000000000000000001005886300000000000000000000129087500000000000000000000000001028166900000000000000000000129075000000000000000000000000001009607800000000000000000000129062500000000000000000000000000905237220000000000000000000129050000000000000000000000000001033092100000000000000000000129037500000000000000000000000001037430200000000000000000000129025000000000000000000000000001054486000000000000000000000129012500000000000000000000000001086139600000000000000000000129000000000000000000000,
    1054051900000000000000000000130587500000000000000000000000001031621700000000000000000000130575000000000000000000000000001133479800000000000000000000130562500000000000000000000000001068953100000000000000000000130550000000000000000000000000000948110300000000000000000000130537500000000000000000000000000956206940000000000000000000130525000000000000000000000000001051820100000000000000000000130512500000000000000000000000001087620600000000000000000000130500000000000000000000000000001022487900000000000000000000130487500000000000000000000000000958035320000000000000000000130475000000000000000000000000000963552680000000000000000000130462500000000000000000000000000998432910000000000000000000130450000000000000000000000000000963473040000000000000000000130437500000000000000000000000001018286200000000000000000000130425000000000000000000000000001081283300000000000000000000130412500000000000000000000000001020774100000000000000000000130400000000000000000000000000001025995900000000000000000000130387500000000000000000000000001070398700000000000000000000130375000000000000000000000000000995045020000000000000000000130362500000000000000000000000000986944190000000000000000000130350000000000000000000000000000959014620000000000000000000130337500000000000000000000000000968913310000000000000000000130325000000000000000000000000001048135000000000000000000000130312500000000000000000000000001012848500000000000000000000130300000000000000000000000000000916330310000000000000000000130287500000000000000000000000000971670170000000000000000000130275000000000000000000000000001035100000000000000000000000130262500000000000000000000000001044338800000000000000000000130250000000000000000000000000001074950000000000000000000000130237500000000000000000000000001095761900000000000000000000130225000000000000000000000000001067993100000000000000000000130212500000000000000000000000001067427300000000000000000000130200000000000000000000000000000997122260000000000000000000130187500000000000000000000000001014374800000000000000000000130175000000000000000000000000001019527000000000000000000000130162500000000000000000000000000997203070000000000000000000130150000000000000000000000000000953165570000000000000000000130137500000000000000000000000000987972130000000000000000000130125000000000000000000000000001060607200000000000000000000130112500000000000000000000000001117199100000000000000000000130100000000000000000000000000001033120500000000000000000000130087500000000000000000000000000942368470000000000000000000130075000000000000000000000000000977079700000000000000000000130062500000000000000000000000001061545100000000000000000000130050000000000000000000000000001056132500000000000000000000130037500000000000000000000000001011158200000000000000000000130025000000000000000000000000001009525400000000000000000000130012500000000000000000000000001007683100000000000000000000130000000000000000000000000000000989701880000000000000000000129987500000000000000000000000001121310300000000000000000000129975000000000000000000000000001046845200000000000000000000129962500000000000000000000000000961450410000000000000000000129950000000000000000000000000001032464500000000000000000000129937500000000000000000000000000912990400000000000000000000129925000000000000000000000000000959631300000000000000000000129912500000000000000000000000001021730100000000000000000000129900000000000000000000000000001035043800000000000000000000129887500000000000000000000000000996491260000000000000000000129875000000000000000000000000000920352680000000000000000000129862500000000000000000000000001026163900000000000000000000129850000000000000000000000000001012803000000000000000000000129837500000000000000000000000000991361590000000000000000000129825000000000000000000000000001017925900000000000000000000129812500000000000000000000000001031154700000000000000000000129800000000000000000000,
    989005070000000000000000000131387500000000000000000000000000953079930000000000000000000131375000000000000000000000000001008694700000000000000000000131362500000000000000000000000001027842900000000000000000000131350000000000000000000000000001022030300000000000000000000131337500000000000000000000000001022948700000000000000000000131325000000000000000000000000000935997740000000000000000000131312500000000000000000000000000991996710000000000000000000131300000000000000000000000000001074289300000000000000000000131287500000000000000000000000001078808500000000000000000000131275000000000000000000000000001078136100000000000000000000131262500000000000000000000000001055407800000000000000000000131250000000000000000000000000000950240730000000000000000000131237500000000000000000000000001045307000000000000000000000131225000000000000000000000000001063335000000000000000000000131212500000000000000000000000000985023470000000000000000000131200000000000000000000000000000978759380000000000000000000131187500000000000000000000000000925664250000000000000000000131175000000000000000000000000000952310050000000000000000000131162500000000000000000000000000966437220000000000000000000131150000000000000000000000000001009367700000000000000000000131137500000000000000000000000001049694100000000000000000000131125000000000000000000000000001067313500000000000000000000131112500000000000000000000000001065054100000000000000000000131100000000000000000000000000001050655300000000000000000000131087500000000000000000000000001075099000000000000000000000131075000000000000000000000000001044209900000000000000000000131062500000000000000000000000001014080800000000000000000000131050000000000000000000000000000925614320000000000000000000131037500000000000000000000000001052610100000000000000000000131025000000000000000000000000001063461000000000000000000000131012500000000000000000000000001019628500000000000000000000131000000000000000000000000000001020815500000000000000000000130987500000000000000000000000000915598400000000000000000000130975000000000000000000000000000968510760000000000000000000130962500000000000000000000000001074705800000000000000000000130950000000000000000000000000001035166900000000000000000000130937500000000000000000000000001024689400000000000000000000130925000000000000000000000000001060333800000000000000000000130912500000000000000000000000001056785800000000000000000000130900000000000000000000000000001096881600000000000000000000130887500000000000000000000000001181183100000000000000000000130875000000000000000000000000001055784100000000000000000000130862500000000000000000000000001026812600000000000000000000130850000000000000000000000000001044574300000000000000000000130837500000000000000000000000001016144900000000000000000000130825000000000000000000000000000992888090000000000000000000130812500000000000000000000000001102336500000000000000000000130800000000000000000000000000001116821100000000000000000000130787500000000000000000000000001100750000000000000000000000130775000000000000000000000000001043401600000000000000000000130762500000000000000000000000001031818900000000000000000000130750000000000000000000000000001037326800000000000000000000130737500000000000000000000000001030072200000000000000000000130725000000000000000000000000000998043240000000000000000000130712500000000000000000000000000993551040000000000000000000130700000000000000000000000000000920045780000000000000000000130687500000000000000000000000000876962760000000000000000000130675000000000000000000000000000973091270000000000000000000130662500000000000000000000000000997032870000000000000000000130650000000000000000000000000001072024800000000000000000000130637500000000000000000000000001026879200000000000000000000130625000000000000000000000000000989536750000000000000000000130612500000000000000000000000001064340700000000000000000000130600000000000000000000,
    1063386100000000000000000000132187500000000000000000000000001056995300000000000000000000132175000000000000000000000000001038274000000000000000000000132162500000000000000000000000001051532900000000000000000000132150000000000000000000000000001060402900000000000000000000132137500000000000000000000000001040126000000000000000000000132125000000000000000000000000001029952500000000000000000000132112500000000000000000000000001014001600000000000000000000132100000000000000000000000000001041873100000000000000000000132087500000000000000000000000001005600600000000000000000000132075000000000000000000000000001032554500000000000000000000132062500000000000000000000000001035839800000000000000000000132050000000000000000000000000000967556610000000000000000000132037500000000000000000000000000994878860000000000000000000132025000000000000000000000000001021709100000000000000000000132012500000000000000000000000001057495800000000000000000000132000000000000000000000000000001112986600000000000000000000131987500000000000000000000000001034565800000000000000000000131975000000000000000000000000001058966300000000000000000000131962500000000000000000000000001019943800000000000000000000131950000000000000000000000000000955674810000000000000000000131937500000000000000000000000000951893020000000000000000000131925000000000000000000000000000973125660000000000000000000131912500000000000000000000000000967056860000000000000000000131900000000000000000000000000001005203600000000000000000000131887500000000000000000000000001035978600000000000000000000131875000000000000000000000000001008376500000000000000000000131862500000000000000000000000001066302000000000000000000000131850000000000000000000000000001071519500000000000000000000131837500000000000000000000000001027935100000000000000000000131825000000000000000000000000000976117380000000000000000000131812500000000000000000000000001024132200000000000000000000131800000000000000000000000000001078225000000000000000000000131787500000000000000000000000001058333000000000000000000000131775000000000000000000000000001055835500000000000000000000131762500000000000000000000000001005342600000000000000000000131750000000000000000000000000000981768610000000000000000000131737500000000000000000000000001036685900000000000000000000131725000000000000000000000000001029170200000000000000000000131712500000000000000000000000000973971580000000000000000000131700000000000000000000000000001041712200000000000000000000131687500000000000000000000000001050848400000000000000000000131675000000000000000000000000001120592400000000000000000000131662500000000000000000000000001062973200000000000000000000131650000000000000000000000000001063606900000000000000000000131637500000000000000000000000001058996500000000000000000000131625000000000000000000000000001005469300000000000000000000131612500000000000000000000000000998728950000000000000000000131600000000000000000000000000000936713820000000000000000000131587500000000000000000000000000929412980000000000000000000131575000000000000000000000000000981347210000000000000000000131562500000000000000000000000000994600050000000000000000000131550000000000000000000000000001070385400000000000000000000131537500000000000000000000000001054381100000000000000000000131525000000000000000000000000001024217100000000000000000000131512500000000000000000000000000968580660000000000000000000131500000000000000000000000000001037322600000000000000000000131487500000000000000000000000001013707400000000000000000000131475000000000000000000000000001014270900000000000000000000131462500000000000000000000000001063991000000000000000000000131450000000000000000000000000001012210300000000000000000000131437500000000000000000000000001067428100000000000000000000131425000000000000000000000000001098295500000000000000000000131412500000000000000000000000001049874500000000000000000000131400000000000000000000,
    960736360000000000000000000132987500000000000000000000000000989514630000000000000000000132975000000000000000000000000000983070950000000000000000000132962500000000000000000000000001031802800000000000000000000132950000000000000000000000000001071389600000000000000000000132937500000000000000000000000001010019400000000000000000000132925000000000000000000000000001012051100000000000000000000132912500000000000000000000000001070260800000000000000000000132900000000000000000000000000000970498890000000000000000000132887500000000000000000000000000964981830000000000000000000132875000000000000000000000000001004583900000000000000000000132862500000000000000000000000001050368000000000000000000000132850000000000000000000000000001029955100000000000000000000132837500000000000000000000000000970373460000000000000000000132825000000000000000000000000001014103700000000000000000000132812500000000000000000000000000964181880000000000000000000132800000000000000000000000000000965185240000000000000000000132787500000000000000000000000001031577600000000000000000000132775000000000000000000000000001017753000000000000000000000132762500000000000000000000000000999471940000000000000000000132750000000000000000000000000000984148610000000000000000000132737500000000000000000000000000971254040000000000000000000132725000000000000000000000000001022799400000000000000000000132712500000000000000000000000000993057250000000000000000000132700000000000000000000000000001013232700000000000000000000132687500000000000000000000000001041276200000000000000000000132675000000000000000000000000001080355800000000000000000000132662500000000000000000000000001070940600000000000000000000132650000000000000000000000000001077005300000000000000000000132637500000000000000000000000001051452900000000000000000000132625000000000000000000000000001070664300000000000000000000132612500000000000000000000000001032521400000000000000000000132600000000000000000000000000001079357500000000000000000000132587500000000000000000000000001077750500000000000000000000132575000000000000000000000000001078761600000000000000000000132562500000000000000000000000001118874800000000000000000000132550000000000000000000000000001057152500000000000000000000132537500000000000000000000000001006148200000000000000000000132525000000000000000000000000001025410900000000000000000000132512500000000000000000000000001051743300000000000000000000132500000000000000000000000000001062829900000000000000000000132487500000000000000000000000001092916500000000000000000000132475000000000000000000000000001044325400000000000000000000132462500000000000000000000000001053229900000000000000000000132450000000000000000000000000000922407170000000000000000000132437500000000000000000000000000941911380000000000000000000132425000000000000000000000000001020722400000000000000000000132412500000000000000000000000000995295840000000000000000000132400000000000000000000000000001025979600000000000000000000132387500000000000000000000000001052764500000000000000000000132375000000000000000000000000001070143300000000000000000000132362500000000000000000000000000990230270000000000000000000132350000000000000000000000000000944684970000000000000000000132337500000000000000000000000000966789180000000000000000000132325000000000000000000000000001034614300000000000000000000132312500000000000000000000000001068823500000000000000000000132300000000000000000000000000001120779300000000000000000000132287500000000000000000000000001087462100000000000000000000132275000000000000000000000000001063786700000000000000000000132262500000000000000000000000001083031300000000000000000000132250000000000000000000000000001010094000000000000000000000132237500000000000000000000000001001886200000000000000000000132225000000000000000000000000000999661220000000000000000000132212500000000000000000000000000971612370000000000000000000132200000000000000000000,
    944566340000000000000000000133787500000000000000000000000000978156520000000000000000000133775000000000000000000000000000993288560000000000000000000133762500000000000000000000000001000354800000000000000000000133750000000000000000000000000000996214790000000000000000000133737500000000000000000000000001005949100000000000000000000133725000000000000000000000000001023019500000000000000000000133712500000000000000000000000001103444900000000000000000000133700000000000000000000000000001153501000000000000000000000133687500000000000000000000000001046826600000000000000000000133675000000000000000000000000000994915410000000000000000000133662500000000000000000000000000978193900000000000000000000133650000000000000000000000000001054172000000000000000000000133637500000000000000000000000001105514800000000000000000000133625000000000000000000000000001055559300000000000000000000133612500000000000000000000000001036076900000000000000000000133600000000000000000000000000001088421100000000000000000000133587500000000000000000000000001117341300000000000000000000133575000000000000000000000000001007243300000000000000000000133562500000000000000000000000001005125900000000000000000000133550000000000000000000000000001016497600000000000000000000133537500000000000000000000000001082216900000000000000000000133525000000000000000000000000001109544800000000000000000000133512500000000000000000000000001060988500000000000000000000133500000000000000000000000000001097852000000000000000000000133487500000000000000000000000001045051000000000000000000000133475000000000000000000000000001055055100000000000000000000133462500000000000000000000000000995813800000000000000000000133450000000000000000000000000001048453500000000000000000000133437500000000000000000000000001057869300000000000000000000133425000000000000000000000000000974826320000000000000000000133412500000000000000000000000001029392200000000000000000000133400000000000000000000000000001114646100000000000000000000133387500000000000000000000000001142757100000000000000000000133375000000000000000000000000001091565300000000000000000000133362500000000000000000000000001077600000000000000000000000133350000000000000000000000000001083101700000000000000000000133337500000000000000000000000001000653900000000000000000000133325000000000000000000000000001065747200000000000000000000133312500000000000000000000000001044237300000000000000000000133300000000000000000000000000001030198400000000000000000000133287500000000000000000000000000961039500000000000000000000133275000000000000000000000000001025797300000000000000000000133262500000000000000000000000001080250800000000000000000000133250000000000000000000000000001031312900000000000000000000133237500000000000000000000000001021264400000000000000000000133225000000000000000000000000001046741500000000000000000000133212500000000000000000000000001056691300000000000000000000133200000000000000000000000000001094498000000000000000000000133187500000000000000000000000001008272200000000000000000000133175000000000000000000000000001071525600000000000000000000133162500000000000000000000000001066849600000000000000000000133150000000000000000000000000001082038700000000000000000000133137500000000000000000000000001035693500000000000000000000133125000000000000000000000000001024276000000000000000000000133112500000000000000000000000001055337700000000000000000000133100000000000000000000000000001087319900000000000000000000133087500000000000000000000000001071212500000000000000000000133075000000000000000000000000001077311900000000000000000000133062500000000000000000000000001012786400000000000000000000133050000000000000000000000000000934173420000000000000000000133037500000000000000000000000000902647940000000000000000000133025000000000000000000000000001058167800000000000000000000133012500000000000000000000000001032877800000000000000000000133000000000000000000000,
    1030121700000000000000000000134587500000000000000000000000001086822800000000000000000000134575000000000000000000000000001127234200000000000000000000134562500000000000000000000000001043746000000000000000000000134550000000000000000000000000001027414900000000000000000000134537500000000000000000000000001077667000000000000000000000134525000000000000000000000000001037908400000000000000000000134512500000000000000000000000001042733300000000000000000000134500000000000000000000000000001035351300000000000000000000134487500000000000000000000000001001766400000000000000000000134475000000000000000000000000001069956600000000000000000000134462500000000000000000000000001154675000000000000000000000134450000000000000000000000000001173828200000000000000000000134437500000000000000000000000001050407700000000000000000000134425000000000000000000000000000973837270000000000000000000134412500000000000000000000000000906186300000000000000000000134400000000000000000000000000001012678600000000000000000000134387500000000000000000000000001032094200000000000000000000134375000000000000000000000000000946201450000000000000000000134362500000000000000000000000000998058590000000000000000000134350000000000000000000000000001043508100000000000000000000134337500000000000000000000000001051095000000000000000000000134325000000000000000000000000000996656820000000000000000000134312500000000000000000000000001016161900000000000000000000134300000000000000000000000000001033048700000000000000000000134287500000000000000000000000001056767900000000000000000000134275000000000000000000000000001118112600000000000000000000134262500000000000000000000000001050834500000000000000000000134250000000000000000000000000001062064000000000000000000000134237500000000000000000000000001076971300000000000000000000134225000000000000000000000000001079394900000000000000000000134212500000000000000000000000001057011700000000000000000000134200000000000000000000000000001028876600000000000000000000134187500000000000000000000000001140928300000000000000000000134175000000000000000000000000001034408500000000000000000000134162500000000000000000000000001001043800000000000000000000134150000000000000000000000000000990134000000000000000000000134137500000000000000000000000000995165320000000000000000000134125000000000000000000000000001013398800000000000000000000134112500000000000000000000000000994652320000000000000000000134100000000000000000000000000001068995900000000000000000000134087500000000000000000000000001090599600000000000000000000134075000000000000000000000000001086833000000000000000000000134062500000000000000000000000001115971500000000000000000000134050000000000000000000000000001143586100000000000000000000134037500000000000000000000000001049498300000000000000000000134025000000000000000000000000000980282480000000000000000000134012500000000000000000000000000960900870000000000000000000134000000000000000000000000000000971418190000000000000000000133987500000000000000000000000001028855300000000000000000000133975000000000000000000000000001132839600000000000000000000133962500000000000000000000000001035654000000000000000000000133950000000000000000000000000001072657500000000000000000000133937500000000000000000000000001148235900000000000000000000133925000000000000000000000000001077542000000000000000000000133912500000000000000000000000001076983000000000000000000000133900000000000000000000000000001089975200000000000000000000133887500000000000000000000000000973268090000000000000000000133875000000000000000000000000000965262490000000000000000000133862500000000000000000000000001051319000000000000000000000133850000000000000000000000000001026497200000000000000000000133837500000000000000000000000001029663800000000000000000000133825000000000000000000000000001037287000000000000000000000133812500000000000000000000000000978061160000000000000000000133800000000000000000000,
    1022719700000000000000000000135387500000000000000000000000000965921580000000000000000000135375000000000000000000000000001018490800000000000000000000135362500000000000000000000000000996036690000000000000000000135350000000000000000000000000001020211200000000000000000000135337500000000000000000000000001035339600000000000000000000135325000000000000000000000000001080966900000000000000000000135312500000000000000000000000001098303600000000000000000000135300000000000000000000000000001028784000000000000000000000135287500000000000000000000000000958626020000000000000000000135275000000000000000000000000000966103270000000000000000000135262500000000000000000000000001052477900000000000000000000135250000000000000000000000000001094988900000000000000000000135237500000000000000000000000001096750200000000000000000000135225000000000000000000000000000983011770000000000000000000135212500000000000000000000000001041642800000000000000000000135200000000000000000000000000001048283600000000000000000000135187500000000000000000000000000994757660000000000000000000135175000000000000000000000000001080438000000000000000000000135162500000000000000000000000001083033600000000000000000000135150000000000000000000000000000930336290000000000000000000135137500000000000000000000000000974700320000000000000000000135125000000000000000000000000001029017900000000000000000000135112500000000000000000000000001037619600000000000000000000135100000000000000000000000000000991084150000000000000000000135087500000000000000000000000001014083500000000000000000000135075000000000000000000000000001046019300000000000000000000135062500000000000000000000000001051151200000000000000000000135050000000000000000000000000000993650440000000000000000000135037500000000000000000000000001071866300000000000000000000135025000000000000000000000000001036521300000000000000000000135012500000000000000000000000001006173400000000000000000000135000000000000000000000000000000975380950000000000000000000134987500000000000000000000000000994062680000000000000000000134975000000000000000000000000001044706300000000000000000000134962500000000000000000000000000991928760000000000000000000134950000000000000000000000000001096278100000000000000000000134937500000000000000000000000001119050100000000000000000000134925000000000000000000000000001114042500000000000000000000134912500000000000000000000000001101326400000000000000000000134900000000000000000000000000001118503600000000000000000000134887500000000000000000000000001119401800000000000000000000134875000000000000000000000000001000886900000000000000000000134862500000000000000000000000000979096990000000000000000000134850000000000000000000000000001021258600000000000000000000134837500000000000000000000000001018360800000000000000000000134825000000000000000000000000000966434630000000000000000000134812500000000000000000000000001046593000000000000000000000134800000000000000000000000000001078375200000000000000000000134787500000000000000000000000001056277500000000000000000000134775000000000000000000000000001059759100000000000000000000134762500000000000000000000000001051112600000000000000000000134750000000000000000000000000001088418500000000000000000000134737500000000000000000000000001046866500000000000000000000134725000000000000000000000000001039266700000000000000000000134712500000000000000000000000001069431600000000000000000000134700000000000000000000000000001065836400000000000000000000134687500000000000000000000000001093835700000000000000000000134675000000000000000000000000001092934800000000000000000000134662500000000000000000000000001027454200000000000000000000134650000000000000000000000000001007540500000000000000000000134637500000000000000000000000001054396100000000000000000000134625000000000000000000000000001080146200000000000000000000134612500000000000000000000000001032849200000000000000000000134600000000000000000000,
    1071250500000000000000000000136187500000000000000000000000000990431100000000000000000000136175000000000000000000000000001094767200000000000000000000136162500000000000000000000000001067505900000000000000000000136150000000000000000000000000001016703000000000000000000000136137500000000000000000000000001050624000000000000000000000136125000000000000000000000000001105336100000000000000000000136112500000000000000000000000001137535900000000000000000000136100000000000000000000000000001136662200000000000000000000136087500000000000000000000000001107186900000000000000000000136075000000000000000000000000001004300200000000000000000000136062500000000000000000000000001046527700000000000000000000136050000000000000000000000000001055726400000000000000000000136037500000000000000000000000001073633400000000000000000000136025000000000000000000000000001118379200000000000000000000136012500000000000000000000000001101486700000000000000000000136000000000000000000000000000001066362300000000000000000000135987500000000000000000000000001093430700000000000000000000135975000000000000000000000000001142421400000000000000000000135962500000000000000000000000001130254600000000000000000000135950000000000000000000000000001128498500000000000000000000135937500000000000000000000000001121600300000000000000000000135925000000000000000000000000001055029600000000000000000000135912500000000000000000000000001108485000000000000000000000135900000000000000000000000000001078862500000000000000000000135887500000000000000000000000001021409700000000000000000000135875000000000000000000000000001049962300000000000000000000135862500000000000000000000000001095505400000000000000000000135850000000000000000000000000001117404700000000000000000000135837500000000000000000000000000977286790000000000000000000135825000000000000000000000000001033724300000000000000000000135812500000000000000000000000001079382300000000000000000000135800000000000000000000000000001061915400000000000000000000135787500000000000000000000000001024446000000000000000000000135775000000000000000000000000001000192700000000000000000000135762500000000000000000000000001034297800000000000000000000135750000000000000000000000000001056853600000000000000000000135737500000000000000000000000001097837300000000000000000000135725000000000000000000000000001123295700000000000000000000135712500000000000000000000000001155688400000000000000000000135700000000000000000000000000001110745900000000000000000000135687500000000000000000000000000978428080000000000000000000135675000000000000000000000000001066406100000000000000000000135662500000000000000000000000001133805200000000000000000000135650000000000000000000000000001132864000000000000000000000135637500000000000000000000000001068124500000000000000000000135625000000000000000000000000001080646400000000000000000000135612500000000000000000000000001097515100000000000000000000135600000000000000000000000000001035450500000000000000000000135587500000000000000000000000000950862500000000000000000000135575000000000000000000000000000922778610000000000000000000135562500000000000000000000000001037280500000000000000000000135550000000000000000000000000000950589990000000000000000000135537500000000000000000000000001033203100000000000000000000135525000000000000000000000000001067290700000000000000000000135512500000000000000000000000001087933000000000000000000000135500000000000000000000000000001121915300000000000000000000135487500000000000000000000000001065777300000000000000000000135475000000000000000000000000001042640800000000000000000000135462500000000000000000000000001052773100000000000000000000135450000000000000000000000000001039216400000000000000000000135437500000000000000000000000001004245700000000000000000000135425000000000000000000000000001042997900000000000000000000135412500000000000000000000000001045034800000000000000000000135400000000000000000000,
    1057217000000000000000000000136987500000000000000000000000001059974200000000000000000000136975000000000000000000000000001030198100000000000000000000136962500000000000000000000000001039361400000000000000000000136950000000000000000000000000001055810600000000000000000000136937500000000000000000000000000976611720000000000000000000136925000000000000000000000000000939685430000000000000000000136912500000000000000000000000000957209010000000000000000000136900000000000000000000000000000980747620000000000000000000136887500000000000000000000000001003784900000000000000000000136875000000000000000000000000001054170000000000000000000000136862500000000000000000000000001084189200000000000000000000136850000000000000000000000000001067590900000000000000000000136837500000000000000000000000001055982600000000000000000000136825000000000000000000000000001135609100000000000000000000136812500000000000000000000000001166982400000000000000000000136800000000000000000000000000001145121500000000000000000000136787500000000000000000000000001079173300000000000000000000136775000000000000000000000000001040762800000000000000000000136762500000000000000000000000000997643400000000000000000000136750000000000000000000000000001062517500000000000000000000136737500000000000000000000000001016465200000000000000000000136725000000000000000000000000001026795500000000000000000000136712500000000000000000000000000930284230000000000000000000136700000000000000000000000000000931727210000000000000000000136687500000000000000000000000000994008290000000000000000000136675000000000000000000000000001098964900000000000000000000136662500000000000000000000000001156240700000000000000000000136650000000000000000000000000001088451900000000000000000000136637500000000000000000000000001029263600000000000000000000136625000000000000000000000000000981378990000000000000000000136612500000000000000000000000001018918600000000000000000000136600000000000000000000000000001106974600000000000000000000136587500000000000000000000000001162563700000000000000000000136575000000000000000000000000001219155200000000000000000000136562500000000000000000000000001159679300000000000000000000136550000000000000000000000000000998362920000000000000000000136537500000000000000000000000000993300150000000000000000000136525000000000000000000000000001006547200000000000000000000136512500000000000000000000000001024457800000000000000000000136500000000000000000000000000001099093300000000000000000000136487500000000000000000000000001094778100000000000000000000136475000000000000000000000000001018141400000000000000000000136462500000000000000000000000001022660800000000000000000000136450000000000000000000000000001066342300000000000000000000136437500000000000000000000000001103245300000000000000000000136425000000000000000000000000001058261600000000000000000000136412500000000000000000000000001016205300000000000000000000136400000000000000000000000000001017392400000000000000000000136387500000000000000000000000001034394500000000000000000000136375000000000000000000000000001096787000000000000000000000136362500000000000000000000000001137012600000000000000000000136350000000000000000000000000001151261900000000000000000000136337500000000000000000000000001040873400000000000000000000136325000000000000000000000000000985388820000000000000000000136312500000000000000000000000001006161400000000000000000000136300000000000000000000000000000896529550000000000000000000136287500000000000000000000000000963356660000000000000000000136275000000000000000000000000000993856600000000000000000000136262500000000000000000000000001046785900000000000000000000136250000000000000000000000000001077635900000000000000000000136237500000000000000000000000001087429800000000000000000000136225000000000000000000000000001086903800000000000000000000136212500000000000000000000000001133855000000000000000000000136200000000000000000000,
    1038094300000000000000000000137787500000000000000000000000001016491400000000000000000000137775000000000000000000000000001075839400000000000000000000137762500000000000000000000000001042950800000000000000000000137750000000000000000000000000001036255800000000000000000000137737500000000000000000000000001070847000000000000000000000137725000000000000000000000000001091725100000000000000000000137712500000000000000000000000001078793500000000000000000000137700000000000000000000000000001101187500000000000000000000137687500000000000000000000000001085697800000000000000000000137675000000000000000000000000001086130200000000000000000000137662500000000000000000000000001136484500000000000000000000137650000000000000000000000000001077406800000000000000000000137637500000000000000000000000001050117700000000000000000000137625000000000000000000000000000981033730000000000000000000137612500000000000000000000000000959736880000000000000000000137600000000000000000000000000001043615500000000000000000000137587500000000000000000000000001064260200000000000000000000137575000000000000000000000000001059062100000000000000000000137562500000000000000000000000001063556500000000000000000000137550000000000000000000000000000976556270000000000000000000137537500000000000000000000000001100783100000000000000000000137525000000000000000000000000001084706400000000000000000000137512500000000000000000000000001068624000000000000000000000137500000000000000000000000000001104229200000000000000000000137487500000000000000000000000001021585000000000000000000000137475000000000000000000000000001037385800000000000000000000137462500000000000000000000000001052999900000000000000000000137450000000000000000000000000001053313800000000000000000000137437500000000000000000000000001038957600000000000000000000137425000000000000000000000000001077210900000000000000000000137412500000000000000000000000001110297900000000000000000000137400000000000000000000000000001053534500000000000000000000137387500000000000000000000000000974561530000000000000000000137375000000000000000000000000001099534500000000000000000000137362500000000000000000000000001102626600000000000000000000137350000000000000000000000000000958322940000000000000000000137337500000000000000000000000001048837900000000000000000000137325000000000000000000000000001165653100000000000000000000137312500000000000000000000000001013120000000000000000000000137300000000000000000000000000000999405180000000000000000000137287500000000000000000000000001005782300000000000000000000137275000000000000000000000000001057124600000000000000000000137262500000000000000000000000001042382100000000000000000000137250000000000000000000000000001007284800000000000000000000137237500000000000000000000000001038148700000000000000000000137225000000000000000000000000001060672500000000000000000000137212500000000000000000000000001003108500000000000000000000137200000000000000000000000000000992809910000000000000000000137187500000000000000000000000001147475500000000000000000000137175000000000000000000000000001086302100000000000000000000137162500000000000000000000000000993957340000000000000000000137150000000000000000000000000001071764500000000000000000000137137500000000000000000000000001078230800000000000000000000137125000000000000000000000000001077814600000000000000000000137112500000000000000000000000001126458500000000000000000000137100000000000000000000000000001072144700000000000000000000137087500000000000000000000000001084680300000000000000000000137075000000000000000000000000001092750300000000000000000000137062500000000000000000000000000977161290000000000000000000137050000000000000000000000000001071172200000000000000000000137037500000000000000000000000001098762100000000000000000000137025000000000000000000000000001068300300000000000000000000137012500000000000000000000000001065642100000000000000000000137000000000000000000000,
    1062785100000000000000000000138587500000000000000000000000001054090600000000000000000000138575000000000000000000000000000986141480000000000000000000138562500000000000000000000000001080455700000000000000000000138550000000000000000000000000001062726400000000000000000000138537500000000000000000000000001099391400000000000000000000138525000000000000000000000000001089686800000000000000000000138512500000000000000000000000000998652640000000000000000000138500000000000000000000000000001008820000000000000000000000138487500000000000000000000000001054829900000000000000000000138475000000000000000000000000001080475700000000000000000000138462500000000000000000000000001115348700000000000000000000138450000000000000000000000000001074666400000000000000000000138437500000000000000000000000001004027300000000000000000000138425000000000000000000000000000962566800000000000000000000138412500000000000000000000000001043015200000000000000000000138400000000000000000000000000001112573000000000000000000000138387500000000000000000000000001055590500000000000000000000138375000000000000000000000000001085783700000000000000000000138362500000000000000000000000001044700500000000000000000000138350000000000000000000000000001066202700000000000000000000138337500000000000000000000000000997809450000000000000000000138325000000000000000000000000001007208400000000000000000000138312500000000000000000000000001059566100000000000000000000138300000000000000000000000000001093841500000000000000000000138287500000000000000000000000001135127500000000000000000000138275000000000000000000000000001142851500000000000000000000138262500000000000000000000000001105005500000000000000000000138250000000000000000000000000001028794200000000000000000000138237500000000000000000000000001082342000000000000000000000138225000000000000000000000000001148485000000000000000000000138212500000000000000000000000001125152800000000000000000000138200000000000000000000000000001032481500000000000000000000138187500000000000000000000000000994826560000000000000000000138175000000000000000000000000001095884500000000000000000000138162500000000000000000000000001098825700000000000000000000138150000000000000000000000000001011105200000000000000000000138137500000000000000000000000001102491700000000000000000000138125000000000000000000000000001112005700000000000000000000138112500000000000000000000000001065639200000000000000000000138100000000000000000000000000001055707300000000000000000000138087500000000000000000000000001140835000000000000000000000138075000000000000000000000000001106769500000000000000000000138062500000000000000000000000001001797100000000000000000000138050000000000000000000000000000974454010000000000000000000138037500000000000000000000000000984887150000000000000000000138025000000000000000000000000001067240800000000000000000000138012500000000000000000000000001026892800000000000000000000138000000000000000000000000000000999286670000000000000000000137987500000000000000000000000001050096200000000000000000000137975000000000000000000000000001087636400000000000000000000137962500000000000000000000000001022885600000000000000000000137950000000000000000000000000001004452100000000000000000000137937500000000000000000000000001070765000000000000000000000137925000000000000000000000000001080895900000000000000000000137912500000000000000000000000001004257500000000000000000000137900000000000000000000000000001029981400000000000000000000137887500000000000000000000000001067794800000000000000000000137875000000000000000000000000001021386600000000000000000000137862500000000000000000000000001051661300000000000000000000137850000000000000000000000000001101144600000000000000000000137837500000000000000000000000001087820100000000000000000000137825000000000000000000000000001063501000000000000000000000137812500000000000000000000000001002282300000000000000000000137800000000000000000000,
    989768220000000000000000000139387500000000000000000000000001078620600000000000000000000139375000000000000000000000000001091012100000000000000000000139362500000000000000000000000001090929100000000000000000000139350000000000000000000000000001118115000000000000000000000139337500000000000000000000000001121909900000000000000000000139325000000000000000000000000001117882700000000000000000000139312500000000000000000000000001070049200000000000000000000139300000000000000000000000000001006844800000000000000000000139287500000000000000000000000001066573500000000000000000000139275000000000000000000000000001075424800000000000000000000139262500000000000000000000000001047424100000000000000000000139250000000000000000000000000001080577300000000000000000000139237500000000000000000000000001091931900000000000000000000139225000000000000000000000000001052904200000000000000000000139212500000000000000000000000001045076700000000000000000000139200000000000000000000000000001075757400000000000000000000139187500000000000000000000000001078233500000000000000000000139175000000000000000000000000001048606000000000000000000000139162500000000000000000000000001107185100000000000000000000139150000000000000000000000000001055782600000000000000000000139137500000000000000000000000001035522400000000000000000000139125000000000000000000000000001072244800000000000000000000139112500000000000000000000000001124443900000000000000000000139100000000000000000000000000001116698000000000000000000000139087500000000000000000000000001072046700000000000000000000139075000000000000000000000000001063389600000000000000000000139062500000000000000000000000001094892200000000000000000000139050000000000000000000000000001061883800000000000000000000139037500000000000000000000000001002103500000000000000000000139025000000000000000000000000001071877700000000000000000000139012500000000000000000000000001078935300000000000000000000139000000000000000000000000000001042888300000000000000000000138987500000000000000000000000000989645220000000000000000000138975000000000000000000000000001036136600000000000000000000138962500000000000000000000000001041580900000000000000000000138950000000000000000000000000001037106300000000000000000000138937500000000000000000000000001055956600000000000000000000138925000000000000000000000000001159924600000000000000000000138912500000000000000000000000001100717200000000000000000000138900000000000000000000000000000999019150000000000000000000138887500000000000000000000000001089198500000000000000000000138875000000000000000000000000001081741400000000000000000000138862500000000000000000000000001071574100000000000000000000138850000000000000000000000000000973886500000000000000000000138837500000000000000000000000001023813100000000000000000000138825000000000000000000000000001078464600000000000000000000138812500000000000000000000000001112667700000000000000000000138800000000000000000000000000001069028200000000000000000000138787500000000000000000000000001070330600000000000000000000138775000000000000000000000000001021655600000000000000000000138762500000000000000000000000000991663710000000000000000000138750000000000000000000000000001010407500000000000000000000138737500000000000000000000000001094360100000000000000000000138725000000000000000000000000001069785800000000000000000000138712500000000000000000000000000999902540000000000000000000138700000000000000000000000000001032615200000000000000000000138687500000000000000000000000001096479100000000000000000000138675000000000000000000000000001109254300000000000000000000138662500000000000000000000000001086470900000000000000000000138650000000000000000000000000001138856900000000000000000000138637500000000000000000000000001071531700000000000000000000138625000000000000000000000000001090289000000000000000000000138612500000000000000000000000001082292300000000000000000000138600000000000000000000,
    1107930800000000000000000000140187500000000000000000000000001078434100000000000000000000140175000000000000000000000000001143352500000000000000000000140162500000000000000000000000001031907500000000000000000000140150000000000000000000000000001090645200000000000000000000140137500000000000000000000000001119237800000000000000000000140125000000000000000000000000001128688000000000000000000000140112500000000000000000000000001011806100000000000000000000140100000000000000000000000000001130600900000000000000000000140087500000000000000000000000001111695100000000000000000000140075000000000000000000000000001042229700000000000000000000140062500000000000000000000000001007054100000000000000000000140050000000000000000000000000001068971200000000000000000000140037500000000000000000000000001128400500000000000000000000140025000000000000000000000000001051326100000000000000000000140012500000000000000000000000001052541000000000000000000000140000000000000000000000000000001206439300000000000000000000139987500000000000000000000000001069902600000000000000000000139975000000000000000000000000000940649070000000000000000000139962500000000000000000000000000922470630000000000000000000139950000000000000000000000000001001382400000000000000000000139937500000000000000000000000001111207200000000000000000000139925000000000000000000000000001080052900000000000000000000139912500000000000000000000000001016273500000000000000000000139900000000000000000000000000000976963880000000000000000000139887500000000000000000000000000988861420000000000000000000139875000000000000000000000000001068564500000000000000000000139862500000000000000000000000001066725600000000000000000000139850000000000000000000000000001064752500000000000000000000139837500000000000000000000000001095543200000000000000000000139825000000000000000000000000001069873200000000000000000000139812500000000000000000000000001065786100000000000000000000139800000000000000000000000000001144672500000000000000000000139787500000000000000000000000001043519800000000000000000000139775000000000000000000000000001081555200000000000000000000139762500000000000000000000000001051119300000000000000000000139750000000000000000000000000001072534700000000000000000000139737500000000000000000000000001062809000000000000000000000139725000000000000000000000000001104213800000000000000000000139712500000000000000000000000001140119800000000000000000000139700000000000000000000000000001103669500000000000000000000139687500000000000000000000000001128876000000000000000000000139675000000000000000000000000001079879800000000000000000000139662500000000000000000000000001085886400000000000000000000139650000000000000000000000000001024274000000000000000000000139637500000000000000000000000000969131080000000000000000000139625000000000000000000000000001110744800000000000000000000139612500000000000000000000000001074659400000000000000000000139600000000000000000000000000001085109000000000000000000000139587500000000000000000000000001018381500000000000000000000139575000000000000000000000000000965843540000000000000000000139562500000000000000000000000001109882200000000000000000000139550000000000000000000000000001092917400000000000000000000139537500000000000000000000000001080957500000000000000000000139525000000000000000000000000001023112300000000000000000000139512500000000000000000000000001037566100000000000000000000139500000000000000000000000000001076288000000000000000000000139487500000000000000000000000001058799200000000000000000000139475000000000000000000000000001085135500000000000000000000139462500000000000000000000000001078953400000000000000000000139450000000000000000000000000001030885900000000000000000000139437500000000000000000000000001105777200000000000000000000139425000000000000000000000000001133579200000000000000000000139412500000000000000000000000000999198990000000000000000000139400000000000000000000,
    1220851700000000000000000000140987500000000000000000000000001154164800000000000000000000140975000000000000000000000000001117031600000000000000000000140962500000000000000000000000001120958200000000000000000000140950000000000000000000000000000992449130000000000000000000140937500000000000000000000000000982845220000000000000000000140925000000000000000000000000001026070900000000000000000000140912500000000000000000000000001032514700000000000000000000140900000000000000000000000000001073290100000000000000000000140887500000000000000000000000001168794500000000000000000000140875000000000000000000000000001108491400000000000000000000140862500000000000000000000000001151741600000000000000000000140850000000000000000000000000001108674900000000000000000000140837500000000000000000000000001040435600000000000000000000140825000000000000000000000000001077414800000000000000000000140812500000000000000000000000001027121200000000000000000000140800000000000000000000000000001068617100000000000000000000140787500000000000000000000000001068887800000000000000000000140775000000000000000000000000001058534000000000000000000000140762500000000000000000000000000994836880000000000000000000140750000000000000000000000000001043831600000000000000000000140737500000000000000000000000001113703500000000000000000000140725000000000000000000000000001107028400000000000000000000140712500000000000000000000000001056359200000000000000000000140700000000000000000000000000001061800300000000000000000000140687500000000000000000000000001102280700000000000000000000140675000000000000000000000000001103546200000000000000000000140662500000000000000000000000001140989800000000000000000000140650000000000000000000000000001060018100000000000000000000140637500000000000000000000000001047881000000000000000000000140625000000000000000000000000001093483000000000000000000000140612500000000000000000000000001083150000000000000000000000140600000000000000000000000000001029713700000000000000000000140587500000000000000000000000001055326200000000000000000000140575000000000000000000000000001109941900000000000000000000140562500000000000000000000000001065013900000000000000000000140550000000000000000000000000001123094600000000000000000000140537500000000000000000000000001149615500000000000000000000140525000000000000000000000000001127941700000000000000000000140512500000000000000000000000001032489600000000000000000000140500000000000000000000000000001046894700000000000000000000140487500000000000000000000000001074395600000000000000000000140475000000000000000000000000001042070800000000000000000000140462500000000000000000000000000954991940000000000000000000140450000000000000000000000000001038899900000000000000000000140437500000000000000000000000001079394100000000000000000000140425000000000000000000000000001020759200000000000000000000140412500000000000000000000000001034211500000000000000000000140400000000000000000000000000001023409600000000000000000000140387500000000000000000000000001081731900000000000000000000140375000000000000000000000000001118275700000000000000000000140362500000000000000000000000001159159700000000000000000000140350000000000000000000000000001136267600000000000000000000140337500000000000000000000000001005879600000000000000000000140325000000000000000000000000000979527760000000000000000000140312500000000000000000000000001084844600000000000000000000140300000000000000000000000000001145821700000000000000000000140287500000000000000000000000001101136700000000000000000000140275000000000000000000000000001013575900000000000000000000140262500000000000000000000000001004510900000000000000000000140250000000000000000000000000001003539100000000000000000000140237500000000000000000000000001069429700000000000000000000140225000000000000000000000000001110201300000000000000000000140212500000000000000000000000001178078900000000000000000000140200000000000000000000,
    1033691000000000000000000000141787500000000000000000000000001010191600000000000000000000141775000000000000000000000000001113710300000000000000000000141762500000000000000000000000001074088600000000000000000000141750000000000000000000000000001064952200000000000000000000141737500000000000000000000000001141648700000000000000000000141725000000000000000000000000001072644200000000000000000000141712500000000000000000000000001074649400000000000000000000141700000000000000000000000000001129558800000000000000000000141687500000000000000000000000001107230600000000000000000000141675000000000000000000000000001150938000000000000000000000141662500000000000000000000000001125164500000000000000000000141650000000000000000000000000001090159500000000000000000000141637500000000000000000000000001092688600000000000000000000141625000000000000000000000000001078129300000000000000000000141612500000000000000000000000001007578100000000000000000000141600000000000000000000000000000900366420000000000000000000141587500000000000000000000000001077551600000000000000000000141575000000000000000000000000001211874300000000000000000000141562500000000000000000000000001270382200000000000000000000141550000000000000000000000000001142155200000000000000000000141537500000000000000000000000001083893700000000000000000000141525000000000000000000000000001044040500000000000000000000141512500000000000000000000000001040430000000000000000000000141500000000000000000000000000001041766800000000000000000000141487500000000000000000000000001115050700000000000000000000141475000000000000000000000000001076072400000000000000000000141462500000000000000000000000001041497700000000000000000000141450000000000000000000000000001041338500000000000000000000141437500000000000000000000000001022875800000000000000000000141425000000000000000000000000001031387800000000000000000000141412500000000000000000000000001077977100000000000000000000141400000000000000000000000000001061744900000000000000000000141387500000000000000000000000001150172400000000000000000000141375000000000000000000000000001174155900000000000000000000141362500000000000000000000000001100189200000000000000000000141350000000000000000000000000001087109100000000000000000000141337500000000000000000000000001082178400000000000000000000141325000000000000000000000000001027272900000000000000000000141312500000000000000000000000000977956220000000000000000000141300000000000000000000000000001042719700000000000000000000141287500000000000000000000000001121584300000000000000000000141275000000000000000000000000001057247000000000000000000000141262500000000000000000000000001032014200000000000000000000141250000000000000000000000000001117608900000000000000000000141237500000000000000000000000001164058400000000000000000000141225000000000000000000000000001125347500000000000000000000141212500000000000000000000000001142898600000000000000000000141200000000000000000000000000001087558700000000000000000000141187500000000000000000000000001001402100000000000000000000141175000000000000000000000000001038944300000000000000000000141162500000000000000000000000001143760400000000000000000000141150000000000000000000000000001109836300000000000000000000141137500000000000000000000000001142066700000000000000000000141125000000000000000000000000001141429100000000000000000000141112500000000000000000000000001075323300000000000000000000141100000000000000000000000000001080806600000000000000000000141087500000000000000000000000001101529500000000000000000000141075000000000000000000000000001105632300000000000000000000141062500000000000000000000000001096283600000000000000000000141050000000000000000000000000001147026200000000000000000000141037500000000000000000000000001197276900000000000000000000141025000000000000000000000000001199564400000000000000000000141012500000000000000000000000001213126100000000000000000000141000000000000000000000,
    1243627100000000000000000000142587500000000000000000000000001133589100000000000000000000142575000000000000000000000000001071516500000000000000000000142562500000000000000000000000001010077400000000000000000000142550000000000000000000000000000970176250000000000000000000142537500000000000000000000000001012703900000000000000000000142525000000000000000000000000001099927900000000000000000000142512500000000000000000000000001114517900000000000000000000142500000000000000000000000000001049958700000000000000000000142487500000000000000000000000001046638000000000000000000000142475000000000000000000000000001085915000000000000000000000142462500000000000000000000000001084872300000000000000000000142450000000000000000000000000001115573000000000000000000000142437500000000000000000000000001176267500000000000000000000142425000000000000000000000000001090379300000000000000000000142412500000000000000000000000001047216000000000000000000000142400000000000000000000000000000947171480000000000000000000142387500000000000000000000000000965667050000000000000000000142375000000000000000000000000001022129300000000000000000000142362500000000000000000000000000937764410000000000000000000142350000000000000000000000000000940029450000000000000000000142337500000000000000000000000000998664570000000000000000000142325000000000000000000000000001025960900000000000000000000142312500000000000000000000000001107009300000000000000000000142300000000000000000000000000001054593100000000000000000000142287500000000000000000000000001002814700000000000000000000142275000000000000000000000000001037640500000000000000000000142262500000000000000000000000001012019600000000000000000000142250000000000000000000000000001011502600000000000000000000142237500000000000000000000000000994283210000000000000000000142225000000000000000000000000001049903800000000000000000000142212500000000000000000000000001170785800000000000000000000142200000000000000000000000000001148165700000000000000000000142187500000000000000000000000001137218400000000000000000000142175000000000000000000000000001071512900000000000000000000142162500000000000000000000000001074375600000000000000000000142150000000000000000000000000001098493300000000000000000000142137500000000000000000000000001026454400000000000000000000142125000000000000000000000000001118816000000000000000000000142112500000000000000000000000001158118000000000000000000000142100000000000000000000000000001103380600000000000000000000142087500000000000000000000000001077769400000000000000000000142075000000000000000000000000001079758700000000000000000000142062500000000000000000000000001162492000000000000000000000142050000000000000000000000000001137236700000000000000000000142037500000000000000000000000001210065800000000000000000000142025000000000000000000000000001129188500000000000000000000142012500000000000000000000000001069969700000000000000000000142000000000000000000000000000001101317800000000000000000000141987500000000000000000000000001050850800000000000000000000141975000000000000000000000000001036644600000000000000000000141962500000000000000000000000001108259200000000000000000000141950000000000000000000000000001044387300000000000000000000141937500000000000000000000000001030065200000000000000000000141925000000000000000000000000001132167600000000000000000000141912500000000000000000000000001115162600000000000000000000141900000000000000000000000000001129925100000000000000000000141887500000000000000000000000001061279500000000000000000000141875000000000000000000000000001107463000000000000000000000141862500000000000000000000000001066591200000000000000000000141850000000000000000000000000001098287600000000000000000000141837500000000000000000000000001057588000000000000000000000141825000000000000000000000000001023936700000000000000000000141812500000000000000000000000001038298800000000000000000000141800000000000000000000,
    1165369200000000000000000000143387500000000000000000000000001082364800000000000000000000143375000000000000000000000000001127392400000000000000000000143362500000000000000000000000001151108200000000000000000000143350000000000000000000000000001138385000000000000000000000143337500000000000000000000000001089743400000000000000000000143325000000000000000000000000001116192100000000000000000000143312500000000000000000000000001065285600000000000000000000143300000000000000000000000000001141160700000000000000000000143287500000000000000000000000001117554800000000000000000000143275000000000000000000000000001060009900000000000000000000143262500000000000000000000000001130332000000000000000000000143250000000000000000000000000001070499000000000000000000000143237500000000000000000000000001027163100000000000000000000143225000000000000000000000000001107103000000000000000000000143212500000000000000000000000001016435000000000000000000000143200000000000000000000000000001087544700000000000000000000143187500000000000000000000000001038568200000000000000000000143175000000000000000000000000001144939200000000000000000000143162500000000000000000000000001270206000000000000000000000143150000000000000000000000000001127372800000000000000000000143137500000000000000000000000001002462300000000000000000000143125000000000000000000000000001062479300000000000000000000143112500000000000000000000000001141881100000000000000000000143100000000000000000000000000001154339000000000000000000000143087500000000000000000000000001101173100000000000000000000143075000000000000000000000000001159679700000000000000000000143062500000000000000000000000001147354500000000000000000000143050000000000000000000000000001097803700000000000000000000143037500000000000000000000000001146661600000000000000000000143025000000000000000000000000001039484400000000000000000000143012500000000000000000000000001053037100000000000000000000143000000000000000000000000000001122565300000000000000000000142987500000000000000000000000001134552500000000000000000000142975000000000000000000000000001103061000000000000000000000142962500000000000000000000000001021521400000000000000000000142950000000000000000000000000001025757000000000000000000000142937500000000000000000000000001155335000000000000000000000142925000000000000000000000000001173913200000000000000000000142912500000000000000000000000001147954300000000000000000000142900000000000000000000000000001139733600000000000000000000142887500000000000000000000000001045792600000000000000000000142875000000000000000000000000001030492900000000000000000000142862500000000000000000000000001031954800000000000000000000142850000000000000000000000000001050621600000000000000000000142837500000000000000000000000001109848400000000000000000000142825000000000000000000000000001110289500000000000000000000142812500000000000000000000000001127742900000000000000000000142800000000000000000000000000001048377400000000000000000000142787500000000000000000000000001127536600000000000000000000142775000000000000000000000000001098212200000000000000000000142762500000000000000000000000001079189800000000000000000000142750000000000000000000000000001147372200000000000000000000142737500000000000000000000000001104740600000000000000000000142725000000000000000000000000001025672200000000000000000000142712500000000000000000000000001053701900000000000000000000142700000000000000000000000000001050831500000000000000000000142687500000000000000000000000001148973800000000000000000000142675000000000000000000000000001105407000000000000000000000142662500000000000000000000000001077659800000000000000000000142650000000000000000000000000001083499400000000000000000000142637500000000000000000000000001223718700000000000000000000142625000000000000000000000000001191796100000000000000000000142612500000000000000000000000001249215100000000000000000000142600000000000000000000,
    1200590800000000000000000000144187500000000000000000000000001138129400000000000000000000144175000000000000000000000000001175867800000000000000000000144162500000000000000000000000001122131100000000000000000000144150000000000000000000000000001095706000000000000000000000144137500000000000000000000000001173444700000000000000000000144125000000000000000000000000001135212900000000000000000000144112500000000000000000000000001063578500000000000000000000144100000000000000000000000000001092016200000000000000000000144087500000000000000000000000001058442200000000000000000000144075000000000000000000000000001087920100000000000000000000144062500000000000000000000000001155670300000000000000000000144050000000000000000000000000001130068500000000000000000000144037500000000000000000000000001170200500000000000000000000144025000000000000000000000000001158044000000000000000000000144012500000000000000000000000001100500600000000000000000000144000000000000000000000000000001296452900000000000000000000143987500000000000000000000000001186350000000000000000000000143975000000000000000000000000001068437200000000000000000000143962500000000000000000000000001095915200000000000000000000143950000000000000000000000000001096051900000000000000000000143937500000000000000000000000001124489200000000000000000000143925000000000000000000000000001122952900000000000000000000143912500000000000000000000000001079882500000000000000000000143900000000000000000000000000001071609900000000000000000000143887500000000000000000000000001129549300000000000000000000143875000000000000000000000000001086460000000000000000000000143862500000000000000000000000001099238400000000000000000000143850000000000000000000000000001084812600000000000000000000143837500000000000000000000000001040007600000000000000000000143825000000000000000000000000001080513000000000000000000000143812500000000000000000000000001065577300000000000000000000143800000000000000000000000000001066899800000000000000000000143787500000000000000000000000001150048300000000000000000000143775000000000000000000000000001091988500000000000000000000143762500000000000000000000000001136231400000000000000000000143750000000000000000000000000001068851700000000000000000000143737500000000000000000000000001056884500000000000000000000143725000000000000000000000000001127504800000000000000000000143712500000000000000000000000001087422700000000000000000000143700000000000000000000000000001068541100000000000000000000143687500000000000000000000000001156106600000000000000000000143675000000000000000000000000001143259100000000000000000000143662500000000000000000000000001063951200000000000000000000143650000000000000000000000000001100948200000000000000000000143637500000000000000000000000000956270580000000000000000000143625000000000000000000000000001168087700000000000000000000143612500000000000000000000000001223846500000000000000000000143600000000000000000000000000001156985800000000000000000000143587500000000000000000000000001178648300000000000000000000143575000000000000000000000000001061504300000000000000000000143562500000000000000000000000000979165810000000000000000000143550000000000000000000000000001039533300000000000000000000143537500000000000000000000000001018095600000000000000000000143525000000000000000000000000001136164400000000000000000000143512500000000000000000000000001114128000000000000000000000143500000000000000000000000000001125601700000000000000000000143487500000000000000000000000001044062900000000000000000000143475000000000000000000000000001026473800000000000000000000143462500000000000000000000000000973139140000000000000000000143450000000000000000000000000000984216060000000000000000000143437500000000000000000000000001008182900000000000000000000143425000000000000000000000000001079694900000000000000000000143412500000000000000000000000001150866500000000000000000000143400000000000000000000,
    1179960800000000000000000000144987500000000000000000000000001124847700000000000000000000144975000000000000000000000000001096455600000000000000000000144962500000000000000000000000001209635500000000000000000000144950000000000000000000000000001061824700000000000000000000144937500000000000000000000000001052834900000000000000000000144925000000000000000000000000001164943900000000000000000000144912500000000000000000000000001181078000000000000000000000144900000000000000000000000000001142788300000000000000000000144887500000000000000000000000001107778400000000000000000000144875000000000000000000000000001165006800000000000000000000144862500000000000000000000000001068733700000000000000000000144850000000000000000000000000001035070600000000000000000000144837500000000000000000000000001054917000000000000000000000144825000000000000000000000000001093217500000000000000000000144812500000000000000000000000001059932600000000000000000000144800000000000000000000000000001006819400000000000000000000144787500000000000000000000000001052574300000000000000000000144775000000000000000000000000001033880500000000000000000000144762500000000000000000000000001091350200000000000000000000144750000000000000000000000000001089641900000000000000000000144737500000000000000000000000001070854200000000000000000000144725000000000000000000000000001089905000000000000000000000144712500000000000000000000000001149095500000000000000000000144700000000000000000000000000001173728500000000000000000000144687500000000000000000000000001138158400000000000000000000144675000000000000000000000000001154170000000000000000000000144662500000000000000000000000001129054500000000000000000000144650000000000000000000000000001167564300000000000000000000144637500000000000000000000000001277516700000000000000000000144625000000000000000000000000001232706300000000000000000000144612500000000000000000000000001067317300000000000000000000144600000000000000000000000000001076176500000000000000000000144587500000000000000000000000001086425700000000000000000000144575000000000000000000000000001026471600000000000000000000144562500000000000000000000000001087023300000000000000000000144550000000000000000000000000001149061700000000000000000000144537500000000000000000000000001156217300000000000000000000144525000000000000000000000000001199112400000000000000000000144512500000000000000000000000001235916600000000000000000000144500000000000000000000000000001149593400000000000000000000144487500000000000000000000000001080036800000000000000000000144475000000000000000000000000001133946900000000000000000000144462500000000000000000000000001097314000000000000000000000144450000000000000000000000000001008134200000000000000000000144437500000000000000000000000001049696500000000000000000000144425000000000000000000000000001104566400000000000000000000144412500000000000000000000000001122516700000000000000000000144400000000000000000000000000001087784000000000000000000000144387500000000000000000000000001119441200000000000000000000144375000000000000000000000000001094927400000000000000000000144362500000000000000000000000001132882700000000000000000000144350000000000000000000000000001075411700000000000000000000144337500000000000000000000000001004319600000000000000000000144325000000000000000000000000001032864300000000000000000000144312500000000000000000000000001114171000000000000000000000144300000000000000000000000000001042959900000000000000000000144287500000000000000000000000001019999900000000000000000000144275000000000000000000000000001000071800000000000000000000144262500000000000000000000000001036168800000000000000000000144250000000000000000000000000001086738400000000000000000000144237500000000000000000000000001118891200000000000000000000144225000000000000000000000000001079961200000000000000000000144212500000000000000000000000001151242600000000000000000000144200000000000000000000,
    1142166700000000000000000000145787500000000000000000000000001186142300000000000000000000145775000000000000000000000000001199114600000000000000000000145762500000000000000000000000001187805400000000000000000000145750000000000000000000000000001110014900000000000000000000145737500000000000000000000000001103886000000000000000000000145725000000000000000000000000001078339100000000000000000000145712500000000000000000000000001037084600000000000000000000145700000000000000000000000000001126189700000000000000000000145687500000000000000000000000001132638900000000000000000000145675000000000000000000000000001123708800000000000000000000145662500000000000000000000000001198470500000000000000000000145650000000000000000000000000001203556100000000000000000000145637500000000000000000000000001093265700000000000000000000145625000000000000000000000000001156217300000000000000000000145612500000000000000000000000001225687400000000000000000000145600000000000000000000000000001255817000000000000000000000145587500000000000000000000000001131579600000000000000000000145575000000000000000000000000001132039100000000000000000000145562500000000000000000000000001161882100000000000000000000145550000000000000000000000000001209405100000000000000000000145537500000000000000000000000001203592900000000000000000000145525000000000000000000000000001096824700000000000000000000145512500000000000000000000000001037340600000000000000000000145500000000000000000000000000001088262700000000000000000000145487500000000000000000000000001150218600000000000000000000145475000000000000000000000000001230817300000000000000000000145462500000000000000000000000001238276400000000000000000000145450000000000000000000000000001168116900000000000000000000145437500000000000000000000000001120532000000000000000000000145425000000000000000000000000001201702600000000000000000000145412500000000000000000000000001226309600000000000000000000145400000000000000000000000000001096943000000000000000000000145387500000000000000000000000001057720300000000000000000000145375000000000000000000000000001060018100000000000000000000145362500000000000000000000000001112364900000000000000000000145350000000000000000000000000001111263800000000000000000000145337500000000000000000000000001173355200000000000000000000145325000000000000000000000000001208637800000000000000000000145312500000000000000000000000001075315600000000000000000000145300000000000000000000000000001075966400000000000000000000145287500000000000000000000000001062285600000000000000000000145275000000000000000000000000001115101200000000000000000000145262500000000000000000000000001065384800000000000000000000145250000000000000000000000000001050193600000000000000000000145237500000000000000000000000001051267300000000000000000000145225000000000000000000000000001061754100000000000000000000145212500000000000000000000000001148970900000000000000000000145200000000000000000000000000001139565000000000000000000000145187500000000000000000000000001024982700000000000000000000145175000000000000000000000000001019699300000000000000000000145162500000000000000000000000001036742100000000000000000000145150000000000000000000000000001094579600000000000000000000145137500000000000000000000000001200235200000000000000000000145125000000000000000000000000001193449000000000000000000000145112500000000000000000000000001089553300000000000000000000145100000000000000000000000000001106139700000000000000000000145087500000000000000000000000001174349700000000000000000000145075000000000000000000000000001149718900000000000000000000145062500000000000000000000000001101249200000000000000000000145050000000000000000000000000001100798700000000000000000000145037500000000000000000000000001083431800000000000000000000145025000000000000000000000000001127383900000000000000000000145012500000000000000000000000001136191400000000000000000000145000000000000000000000,
    1131886700000000000000000000146587500000000000000000000000001184898300000000000000000000146575000000000000000000000000001198417000000000000000000000146562500000000000000000000000001114355100000000000000000000146550000000000000000000000000001075964000000000000000000000146537500000000000000000000000001060279100000000000000000000146525000000000000000000000000001051854000000000000000000000146512500000000000000000000000001076209000000000000000000000146500000000000000000000000000001120908300000000000000000000146487500000000000000000000000001131201600000000000000000000146475000000000000000000000000001101946000000000000000000000146462500000000000000000000000001185758800000000000000000000146450000000000000000000000000001134168200000000000000000000146437500000000000000000000000001027038500000000000000000000146425000000000000000000000000001175283200000000000000000000146412500000000000000000000000001204574900000000000000000000146400000000000000000000000000001128801200000000000000000000146387500000000000000000000000001145692200000000000000000000146375000000000000000000000000001178880700000000000000000000146362500000000000000000000000001092059800000000000000000000146350000000000000000000000000000978107680000000000000000000146337500000000000000000000000000990760810000000000000000000146325000000000000000000000000001012966900000000000000000000146312500000000000000000000000001079311100000000000000000000146300000000000000000000000000001066590500000000000000000000146287500000000000000000000000001079034600000000000000000000146275000000000000000000000000001125443900000000000000000000146262500000000000000000000000001189727600000000000000000000146250000000000000000000000000001272430800000000000000000000146237500000000000000000000000001225517700000000000000000000146225000000000000000000000000001212367900000000000000000000146212500000000000000000000000001061447700000000000000000000146200000000000000000000000000000962333360000000000000000000146187500000000000000000000000001033109700000000000000000000146175000000000000000000000000001060516900000000000000000000146162500000000000000000000000001102882700000000000000000000146150000000000000000000000000001185046500000000000000000000146137500000000000000000000000001182314900000000000000000000146125000000000000000000000000001191354000000000000000000000146112500000000000000000000000001213029300000000000000000000146100000000000000000000000000001089995500000000000000000000146087500000000000000000000000001054970600000000000000000000146075000000000000000000000000001083758200000000000000000000146062500000000000000000000000001157144600000000000000000000146050000000000000000000000000001164729400000000000000000000146037500000000000000000000000001209909700000000000000000000146025000000000000000000000000001107433500000000000000000000146012500000000000000000000000001049043900000000000000000000146000000000000000000000000000001068875500000000000000000000145987500000000000000000000000001109037000000000000000000000145975000000000000000000000000001091343600000000000000000000145962500000000000000000000000001135194300000000000000000000145950000000000000000000000000001127227700000000000000000000145937500000000000000000000000001076258900000000000000000000145925000000000000000000000000001148613800000000000000000000145912500000000000000000000000001127910700000000000000000000145900000000000000000000000000001008652100000000000000000000145887500000000000000000000000001116458200000000000000000000145875000000000000000000000000001175431400000000000000000000145862500000000000000000000000001092790500000000000000000000145850000000000000000000000000001044910500000000000000000000145837500000000000000000000000001046832000000000000000000000145825000000000000000000000000001077063800000000000000000000145812500000000000000000000000001136585100000000000000000000145800000000000000000000,
    1108633100000000000000000000147387500000000000000000000000001153199900000000000000000000147375000000000000000000000000001108481000000000000000000000147362500000000000000000000000001205275200000000000000000000147350000000000000000000000000001219275700000000000000000000147337500000000000000000000000001161089000000000000000000000147325000000000000000000000000001180681700000000000000000000147312500000000000000000000000001142339600000000000000000000147300000000000000000000000000001132135900000000000000000000147287500000000000000000000000001073302000000000000000000000147275000000000000000000000000001163175000000000000000000000147262500000000000000000000000001190850300000000000000000000147250000000000000000000000000001110995000000000000000000000147237500000000000000000000000001116562900000000000000000000147225000000000000000000000000001066725600000000000000000000147212500000000000000000000000001058410200000000000000000000147200000000000000000000000000001057565300000000000000000000147187500000000000000000000000001074803300000000000000000000147175000000000000000000000000001084083000000000000000000000147162500000000000000000000000001105939600000000000000000000147150000000000000000000000000001148581700000000000000000000147137500000000000000000000000001196965500000000000000000000147125000000000000000000000000001275270600000000000000000000147112500000000000000000000000001147722000000000000000000000147100000000000000000000000000001242916300000000000000000000147087500000000000000000000000001252749800000000000000000000147075000000000000000000000000001145308200000000000000000000147062500000000000000000000000001178389400000000000000000000147050000000000000000000000000001183567500000000000000000000147037500000000000000000000000001200107100000000000000000000147025000000000000000000000000001171139500000000000000000000147012500000000000000000000000001084500100000000000000000000147000000000000000000000000000001085280700000000000000000000146987500000000000000000000000001101279800000000000000000000146975000000000000000000000000001095365100000000000000000000146962500000000000000000000000001029617600000000000000000000146950000000000000000000000000001139913400000000000000000000146937500000000000000000000000001137895600000000000000000000146925000000000000000000000000001092012100000000000000000000146912500000000000000000000000001132801400000000000000000000146900000000000000000000000000001180459100000000000000000000146887500000000000000000000000001198682900000000000000000000146875000000000000000000000000001121678300000000000000000000146862500000000000000000000000001117950000000000000000000000146850000000000000000000000000001195033600000000000000000000146837500000000000000000000000001142290600000000000000000000146825000000000000000000000000001099464200000000000000000000146812500000000000000000000000001089774000000000000000000000146800000000000000000000000000001120848800000000000000000000146787500000000000000000000000001187189500000000000000000000146775000000000000000000000000001185553000000000000000000000146762500000000000000000000000001131990400000000000000000000146750000000000000000000000000001088592900000000000000000000146737500000000000000000000000001160080100000000000000000000146725000000000000000000000000001205130600000000000000000000146712500000000000000000000000001176733400000000000000000000146700000000000000000000000000001121191100000000000000000000146687500000000000000000000000001014187600000000000000000000146675000000000000000000000000001133207700000000000000000000146662500000000000000000000000001114616800000000000000000000146650000000000000000000000000001066746300000000000000000000146637500000000000000000000000001091116400000000000000000000146625000000000000000000000000001158407300000000000000000000146612500000000000000000000000001108198300000000000000000000146600000000000000000000,
    1306342700000000000000000000148187500000000000000000000000001511175200000000000000000000148175000000000000000000000000001267150300000000000000000000148162500000000000000000000000001146678300000000000000000000148150000000000000000000000000001080830800000000000000000000148137500000000000000000000000001076640000000000000000000000148125000000000000000000000000001088497300000000000000000000148112500000000000000000000000001113778300000000000000000000148100000000000000000000000000001134119000000000000000000000148087500000000000000000000000001205260800000000000000000000148075000000000000000000000000001122270700000000000000000000148062500000000000000000000000001103123600000000000000000000148050000000000000000000000000001195997800000000000000000000148037500000000000000000000000001099080100000000000000000000148025000000000000000000000000001129918400000000000000000000148012500000000000000000000000001172984900000000000000000000148000000000000000000000000000001149445200000000000000000000147987500000000000000000000000001131719200000000000000000000147975000000000000000000000000001120058400000000000000000000147962500000000000000000000000001032478300000000000000000000147950000000000000000000000000001110372400000000000000000000147937500000000000000000000000001250084300000000000000000000147925000000000000000000000000001266062900000000000000000000147912500000000000000000000000001192962400000000000000000000147900000000000000000000000000001087218700000000000000000000147887500000000000000000000000001115033400000000000000000000147875000000000000000000000000001128668700000000000000000000147862500000000000000000000000001090936300000000000000000000147850000000000000000000000000001134092300000000000000000000147837500000000000000000000000001050960800000000000000000000147825000000000000000000000000001128156400000000000000000000147812500000000000000000000000001099900100000000000000000000147800000000000000000000000000001036591400000000000000000000147787500000000000000000000000001112064600000000000000000000147775000000000000000000000000001087852500000000000000000000147762500000000000000000000000001168110100000000000000000000147750000000000000000000000000001159962600000000000000000000147737500000000000000000000000001131534300000000000000000000147725000000000000000000000000001113916900000000000000000000147712500000000000000000000000001055509200000000000000000000147700000000000000000000000000001025358400000000000000000000147687500000000000000000000000001002406200000000000000000000147675000000000000000000000000001074314800000000000000000000147662500000000000000000000000001096694800000000000000000000147650000000000000000000000000001061981900000000000000000000147637500000000000000000000000001122722000000000000000000000147625000000000000000000000000001180769200000000000000000000147612500000000000000000000000001156908000000000000000000000147600000000000000000000000000001221872100000000000000000000147587500000000000000000000000001172505700000000000000000000147575000000000000000000000000001135429400000000000000000000147562500000000000000000000000001154192700000000000000000000147550000000000000000000000000001173383500000000000000000000147537500000000000000000000000001116061300000000000000000000147525000000000000000000000000001101250400000000000000000000147512500000000000000000000000001170247100000000000000000000147500000000000000000000000000001139569000000000000000000000147487500000000000000000000000001159199500000000000000000000147475000000000000000000000000001165470700000000000000000000147462500000000000000000000000001018822800000000000000000000147450000000000000000000000000001105670000000000000000000000147437500000000000000000000000001157162100000000000000000000147425000000000000000000000000001066126600000000000000000000147412500000000000000000000000001028259200000000000000000000147400000000000000000000,
    1183147400000000000000000000148987500000000000000000000000001215930700000000000000000000148975000000000000000000000000001118244200000000000000000000148962500000000000000000000000001217282100000000000000000000148950000000000000000000000000001329752200000000000000000000148937500000000000000000000000001307789800000000000000000000148925000000000000000000000000001206558800000000000000000000148912500000000000000000000000001093823600000000000000000000148900000000000000000000000000001034877300000000000000000000148887500000000000000000000000001074496300000000000000000000148875000000000000000000000000001150792200000000000000000000148862500000000000000000000000001057180600000000000000000000148850000000000000000000000000001082126600000000000000000000148837500000000000000000000000001186231600000000000000000000148825000000000000000000000000001110782700000000000000000000148812500000000000000000000000001113100800000000000000000000148800000000000000000000000000001236204700000000000000000000148787500000000000000000000000001120472300000000000000000000148775000000000000000000000000001111808800000000000000000000148762500000000000000000000000001194391400000000000000000000148750000000000000000000000000001087632800000000000000000000148737500000000000000000000000001187156800000000000000000000148725000000000000000000000000001123970600000000000000000000148712500000000000000000000000001104383200000000000000000000148700000000000000000000000000001128098000000000000000000000148687500000000000000000000000001158657000000000000000000000148675000000000000000000000000001129873400000000000000000000148662500000000000000000000000001114577900000000000000000000148650000000000000000000000000001155875600000000000000000000148637500000000000000000000000001154077500000000000000000000148625000000000000000000000000001142786000000000000000000000148612500000000000000000000000001162527200000000000000000000148600000000000000000000000000001233803600000000000000000000148587500000000000000000000000001172924800000000000000000000148575000000000000000000000000001184288000000000000000000000148562500000000000000000000000001128230300000000000000000000148550000000000000000000000000001053724500000000000000000000148537500000000000000000000000001108497300000000000000000000148525000000000000000000000000001126983800000000000000000000148512500000000000000000000000001158320900000000000000000000148500000000000000000000000000001181857900000000000000000000148487500000000000000000000000001152605900000000000000000000148475000000000000000000000000001086321000000000000000000000148462500000000000000000000000001123082900000000000000000000148450000000000000000000000000001116302700000000000000000000148437500000000000000000000000001131261900000000000000000000148425000000000000000000000000001118915100000000000000000000148412500000000000000000000000001115819800000000000000000000148400000000000000000000000000001071987100000000000000000000148387500000000000000000000000001050213300000000000000000000148375000000000000000000000000001171276400000000000000000000148362500000000000000000000000001108317200000000000000000000148350000000000000000000000000001052513900000000000000000000148337500000000000000000000000001125737700000000000000000000148325000000000000000000000000001228933100000000000000000000148312500000000000000000000000001191491100000000000000000000148300000000000000000000000000001061961300000000000000000000148287500000000000000000000000001061940000000000000000000000148275000000000000000000000000001201552500000000000000000000148262500000000000000000000000001236719400000000000000000000148250000000000000000000000000001167645900000000000000000000148237500000000000000000000000001108617900000000000000000000148225000000000000000000000000001086652400000000000000000000148212500000000000000000000000001112844200000000000000000000148200000000000000000000,
    1166596400000000000000000000149787500000000000000000000000001151941500000000000000000000149775000000000000000000000000001213744500000000000000000000149762500000000000000000000000001248226800000000000000000000149750000000000000000000000000001178284700000000000000000000149737500000000000000000000000001165082800000000000000000000149725000000000000000000000000001175891400000000000000000000149712500000000000000000000000001143514500000000000000000000149700000000000000000000000000001663245500000000000000000000149687500000000000000000000000002413124700000000000000000000149675000000000000000000000000001390782700000000000000000000149662500000000000000000000000001192598100000000000000000000149650000000000000000000000000001649443100000000000000000000149637500000000000000000000000001330244400000000000000000000149625000000000000000000000000001210946700000000000000000000149612500000000000000000000000001188224800000000000000000000149600000000000000000000000000001165387800000000000000000000149587500000000000000000000000001954419600000000000000000000149575000000000000000000000000003155497100000000000000000000149562500000000000000000000000001773470800000000000000000000149550000000000000000000000000001182334900000000000000000000149537500000000000000000000000001317805300000000000000000000149525000000000000000000000000001192158600000000000000000000149512500000000000000000000000001054066800000000000000000000149500000000000000000000000000001164052500000000000000000000149487500000000000000000000000001258435300000000000000000000149475000000000000000000000000001146574500000000000000000000149462500000000000000000000000001158522000000000000000000000149450000000000000000000000000001350623600000000000000000000149437500000000000000000000000001346096000000000000000000000149425000000000000000000000000001187059600000000000000000000149412500000000000000000000000001112592800000000000000000000149400000000000000000000000000001079470800000000000000000000149387500000000000000000000000001198480500000000000000000000149375000000000000000000000000001216798800000000000000000000149362500000000000000000000000001194295000000000000000000000149350000000000000000000000000001189677100000000000000000000149337500000000000000000000000001308702400000000000000000000149325000000000000000000000000001141288900000000000000000000149312500000000000000000000000001133502700000000000000000000149300000000000000000000000000001169468800000000000000000000149287500000000000000000000000001156459300000000000000000000149275000000000000000000000000001229138500000000000000000000149262500000000000000000000000001292100000000000000000000000149250000000000000000000000000001110917700000000000000000000149237500000000000000000000000001140699000000000000000000000149225000000000000000000000000001186284300000000000000000000149212500000000000000000000000001191781400000000000000000000149200000000000000000000000000001244780400000000000000000000149187500000000000000000000000001172240600000000000000000000149175000000000000000000000000001090417600000000000000000000149162500000000000000000000000001138330400000000000000000000149150000000000000000000000000001130453700000000000000000000149137500000000000000000000000001132268500000000000000000000149125000000000000000000000000001044433500000000000000000000149112500000000000000000000000001070346200000000000000000000149100000000000000000000000000001212752900000000000000000000149087500000000000000000000000001174846400000000000000000000149075000000000000000000000000001080739900000000000000000000149062500000000000000000000000001089544200000000000000000000149050000000000000000000000000001091762900000000000000000000149037500000000000000000000000001147828800000000000000000000149025000000000000000000000000001114596900000000000000000000149012500000000000000000000000001090599100000000000000000000149000000000000000000000,
    1224385700000000000000000000150587500000000000000000000000001251477100000000000000000000150575000000000000000000000000001256299100000000000000000000150562500000000000000000000000001150326300000000000000000000150550000000000000000000000000001062559000000000000000000000150537500000000000000000000000001078444300000000000000000000150525000000000000000000000000001050745700000000000000000000150512500000000000000000000000001129286900000000000000000000150500000000000000000000000000001169276800000000000000000000150487500000000000000000000000001218753700000000000000000000150475000000000000000000000000001091257100000000000000000000150462500000000000000000000000001153050500000000000000000000150450000000000000000000000000001307671300000000000000000000150437500000000000000000000000001996410700000000000000000000150425000000000000000000000000001600212800000000000000000000150412500000000000000000000000001099968100000000000000000000150400000000000000000000000000001208493300000000000000000000150387500000000000000000000000001120236100000000000000000000150375000000000000000000000000001135287800000000000000000000150362500000000000000000000000001157854800000000000000000000150350000000000000000000000000001149833300000000000000000000150337500000000000000000000000001116843500000000000000000000150325000000000000000000000000001123902700000000000000000000150312500000000000000000000000001255134000000000000000000000150300000000000000000000000000001133068100000000000000000000150287500000000000000000000000001166736900000000000000000000150275000000000000000000000000001157915200000000000000000000150262500000000000000000000000001055007800000000000000000000150250000000000000000000000000001125046000000000000000000000150237500000000000000000000000001166494600000000000000000000150225000000000000000000000000001190059100000000000000000000150212500000000000000000000000001239766300000000000000000000150200000000000000000000000000001136542800000000000000000000150187500000000000000000000000001122076200000000000000000000150175000000000000000000000000001118036700000000000000000000150162500000000000000000000000001166448900000000000000000000150150000000000000000000000000001201852000000000000000000000150137500000000000000000000000001218042400000000000000000000150125000000000000000000000000001194630200000000000000000000150112500000000000000000000000001109424800000000000000000000150100000000000000000000000000001212338200000000000000000000150087500000000000000000000000001240715700000000000000000000150075000000000000000000000000001152298700000000000000000000150062500000000000000000000000001152800800000000000000000000150050000000000000000000000000001208167600000000000000000000150037500000000000000000000000001218270400000000000000000000150025000000000000000000000000001221073800000000000000000000150012500000000000000000000000001191951700000000000000000000150000000000000000000000000000001107811300000000000000000000149987500000000000000000000000001242924500000000000000000000149975000000000000000000000000001730967400000000000000000000149962500000000000000000000000001558567900000000000000000000149950000000000000000000000000001271815900000000000000000000149937500000000000000000000000001279693300000000000000000000149925000000000000000000000000001178970600000000000000000000149912500000000000000000000000001110078600000000000000000000149900000000000000000000000000001098609400000000000000000000149887500000000000000000000000001063183400000000000000000000149875000000000000000000000000001071903400000000000000000000149862500000000000000000000000001109491000000000000000000000149850000000000000000000000000001204268400000000000000000000149837500000000000000000000000001200829700000000000000000000149825000000000000000000000000001425223000000000000000000000149812500000000000000000000000001440689800000000000000000000149800000000000000000000,
    1066449400000000000000000000151387500000000000000000000000001149724600000000000000000000151375000000000000000000000000001143178000000000000000000000151362500000000000000000000000001125893700000000000000000000151350000000000000000000000000001079926600000000000000000000151337500000000000000000000000001049456000000000000000000000151325000000000000000000000000001042606800000000000000000000151312500000000000000000000000001147314800000000000000000000151300000000000000000000000000001262388500000000000000000000151287500000000000000000000000001168095900000000000000000000151275000000000000000000000000001106421300000000000000000000151262500000000000000000000000001143250800000000000000000000151250000000000000000000000000001179896200000000000000000000151237500000000000000000000000001111131500000000000000000000151225000000000000000000000000001052525700000000000000000000151212500000000000000000000000001127890700000000000000000000151200000000000000000000000000001088571600000000000000000000151187500000000000000000000000001128283000000000000000000000151175000000000000000000000000001100221100000000000000000000151162500000000000000000000000001143397800000000000000000000151150000000000000000000000000001212898900000000000000000000151137500000000000000000000000001182258300000000000000000000151125000000000000000000000000001170876400000000000000000000151112500000000000000000000000001783236800000000000000000000151100000000000000000000000000002225368000000000000000000000151087500000000000000000000000001354051400000000000000000000151075000000000000000000000000001245550000000000000000000000151062500000000000000000000000001308095700000000000000000000151050000000000000000000000000001176016100000000000000000000151037500000000000000000000000001124184900000000000000000000151025000000000000000000000000001134590900000000000000000000151012500000000000000000000000001158057100000000000000000000151000000000000000000000000000001277062200000000000000000000150987500000000000000000000000001280743100000000000000000000150975000000000000000000000000001212591000000000000000000000150962500000000000000000000000001124670000000000000000000000150950000000000000000000000000001097710400000000000000000000150937500000000000000000000000001120601000000000000000000000150925000000000000000000000000001141320900000000000000000000150912500000000000000000000000001090635000000000000000000000150900000000000000000000000000001106312200000000000000000000150887500000000000000000000000001150990700000000000000000000150875000000000000000000000000001103810900000000000000000000150862500000000000000000000000001167079100000000000000000000150850000000000000000000000000001117849500000000000000000000150837500000000000000000000000001172033700000000000000000000150825000000000000000000000000001153114000000000000000000000150812500000000000000000000000001062443100000000000000000000150800000000000000000000000000001080835300000000000000000000150787500000000000000000000000001202368900000000000000000000150775000000000000000000000000001174557500000000000000000000150762500000000000000000000000001093148100000000000000000000150750000000000000000000000000001101932000000000000000000000150737500000000000000000000000001112957900000000000000000000150725000000000000000000000000001081347000000000000000000000150712500000000000000000000000001075906800000000000000000000150700000000000000000000000000001159308500000000000000000000150687500000000000000000000000001193552000000000000000000000150675000000000000000000000000001114567400000000000000000000150662500000000000000000000000001069536700000000000000000000150650000000000000000000000000001128933900000000000000000000150637500000000000000000000000001157338200000000000000000000150625000000000000000000000000001101529200000000000000000000150612500000000000000000000000001216901900000000000000000000150600000000000000000000,
    1209757300000000000000000000152187500000000000000000000000001191700200000000000000000000152175000000000000000000000000001153571600000000000000000000152162500000000000000000000000001225091700000000000000000000152150000000000000000000000000001168895100000000000000000000152137500000000000000000000000001130813200000000000000000000152125000000000000000000000000001205600000000000000000000000152112500000000000000000000000001169500400000000000000000000152100000000000000000000000000001171997900000000000000000000152087500000000000000000000000001130319300000000000000000000152075000000000000000000000000001141674700000000000000000000152062500000000000000000000000001117413700000000000000000000152050000000000000000000000000001164768700000000000000000000152037500000000000000000000000001121163200000000000000000000152025000000000000000000000000001255949700000000000000000000152012500000000000000000000000001225370800000000000000000000152000000000000000000000000000001109304100000000000000000000151987500000000000000000000000001075326800000000000000000000151975000000000000000000000000001110920300000000000000000000151962500000000000000000000000001112620200000000000000000000151950000000000000000000000000001154501800000000000000000000151937500000000000000000000000001097066300000000000000000000151925000000000000000000000000001153430800000000000000000000151912500000000000000000000000001183924100000000000000000000151900000000000000000000000000001120238000000000000000000000151887500000000000000000000000001140999200000000000000000000151875000000000000000000000000001231396900000000000000000000151862500000000000000000000000001129818700000000000000000000151850000000000000000000000000001076853200000000000000000000151837500000000000000000000000001087478900000000000000000000151825000000000000000000000000001115984100000000000000000000151812500000000000000000000000001134219900000000000000000000151800000000000000000000000000001126356600000000000000000000151787500000000000000000000000001081561100000000000000000000151775000000000000000000000000001078734200000000000000000000151762500000000000000000000000001216365000000000000000000000151750000000000000000000000000001157891900000000000000000000151737500000000000000000000000001062713500000000000000000000151725000000000000000000000000001144147700000000000000000000151712500000000000000000000000001294780400000000000000000000151700000000000000000000000000001312137600000000000000000000151687500000000000000000000000001152585900000000000000000000151675000000000000000000000000001082883700000000000000000000151662500000000000000000000000001045393900000000000000000000151650000000000000000000000000001162246600000000000000000000151637500000000000000000000000001157314300000000000000000000151625000000000000000000000000001146222700000000000000000000151612500000000000000000000000001129300200000000000000000000151600000000000000000000000000001199616000000000000000000000151587500000000000000000000000001250390200000000000000000000151575000000000000000000000000001292253600000000000000000000151562500000000000000000000000001188983200000000000000000000151550000000000000000000000000001066553900000000000000000000151537500000000000000000000000001087877800000000000000000000151525000000000000000000000000001097638200000000000000000000151512500000000000000000000000001137048000000000000000000000151500000000000000000000000000001200320400000000000000000000151487500000000000000000000000001209718500000000000000000000151475000000000000000000000000001154648800000000000000000000151462500000000000000000000000001101684700000000000000000000151450000000000000000000000000001164115400000000000000000000151437500000000000000000000000001182276300000000000000000000151425000000000000000000000000001091155000000000000000000000151412500000000000000000000000001064345100000000000000000000151400000000000000000000,
    1155756000000000000000000000152987500000000000000000000000001134141300000000000000000000152975000000000000000000000000001120551000000000000000000000152962500000000000000000000000001187295100000000000000000000152950000000000000000000000000001149501600000000000000000000152937500000000000000000000000001131295500000000000000000000152925000000000000000000000000001056738900000000000000000000152912500000000000000000000000001128413300000000000000000000152900000000000000000000000000001169553800000000000000000000152887500000000000000000000000001165593500000000000000000000152875000000000000000000000000001172299100000000000000000000152862500000000000000000000000001106283300000000000000000000152850000000000000000000000000001161213300000000000000000000152837500000000000000000000000001170899500000000000000000000152825000000000000000000000000001077335600000000000000000000152812500000000000000000000000001041160600000000000000000000152800000000000000000000000000001105003400000000000000000000152787500000000000000000000000001222186900000000000000000000152775000000000000000000000000001195455500000000000000000000152762500000000000000000000000001120699600000000000000000000152750000000000000000000000000001117655200000000000000000000152737500000000000000000000000001164881000000000000000000000152725000000000000000000000000001237962700000000000000000000152712500000000000000000000000001260402000000000000000000000152700000000000000000000000000001159431800000000000000000000152687500000000000000000000000001174585700000000000000000000152675000000000000000000000000001215928600000000000000000000152662500000000000000000000000001204921300000000000000000000152650000000000000000000000000001101587200000000000000000000152637500000000000000000000000001122596500000000000000000000152625000000000000000000000000001197366400000000000000000000152612500000000000000000000000001370536600000000000000000000152600000000000000000000000000001248339600000000000000000000152587500000000000000000000000001161857200000000000000000000152575000000000000000000000000001193987200000000000000000000152562500000000000000000000000001150057400000000000000000000152550000000000000000000000000001270981800000000000000000000152537500000000000000000000000001234090100000000000000000000152525000000000000000000000000001182515000000000000000000000152512500000000000000000000000001295736900000000000000000000152500000000000000000000000000001108716100000000000000000000152487500000000000000000000000001097594300000000000000000000152475000000000000000000000000001058202100000000000000000000152462500000000000000000000000001090786100000000000000000000152450000000000000000000000000001160222400000000000000000000152437500000000000000000000000001180848600000000000000000000152425000000000000000000000000001116496400000000000000000000152412500000000000000000000000001116522800000000000000000000152400000000000000000000000000001265852600000000000000000000152387500000000000000000000000001135436300000000000000000000152375000000000000000000000000001072547700000000000000000000152362500000000000000000000000001155823400000000000000000000152350000000000000000000000000001227995900000000000000000000152337500000000000000000000000001206537600000000000000000000152325000000000000000000000000001116401700000000000000000000152312500000000000000000000000001111143600000000000000000000152300000000000000000000000000001209177400000000000000000000152287500000000000000000000000001160605900000000000000000000152275000000000000000000000000001124366300000000000000000000152262500000000000000000000000001075436800000000000000000000152250000000000000000000000000001166498700000000000000000000152237500000000000000000000000001172633400000000000000000000152225000000000000000000000000001146550300000000000000000000152212500000000000000000000000001195498800000000000000000000152200000000000000000000,
    1196697500000000000000000000153787500000000000000000000000001186034100000000000000000000153775000000000000000000000000001146039100000000000000000000153762500000000000000000000000001190062700000000000000000000153750000000000000000000000000001141421900000000000000000000153737500000000000000000000000001037864900000000000000000000153725000000000000000000000000001082409800000000000000000000153712500000000000000000000000001085936500000000000000000000153700000000000000000000000000001133416100000000000000000000153687500000000000000000000000001244082900000000000000000000153675000000000000000000000000001226792600000000000000000000153662500000000000000000000000001164781400000000000000000000153650000000000000000000000000001159874000000000000000000000153637500000000000000000000000001178758700000000000000000000153625000000000000000000000000001223124800000000000000000000153612500000000000000000000000001125687400000000000000000000153600000000000000000000000000001159734300000000000000000000153587500000000000000000000000001284709100000000000000000000153575000000000000000000000000001179676500000000000000000000153562500000000000000000000000001080537500000000000000000000153550000000000000000000000000001199517400000000000000000000153537500000000000000000000000001313197500000000000000000000153525000000000000000000000000001362468000000000000000000000153512500000000000000000000000002029110600000000000000000000153500000000000000000000000000001745708900000000000000000000153487500000000000000000000000001154918300000000000000000000153475000000000000000000000000001126324500000000000000000000153462500000000000000000000000001144328400000000000000000000153450000000000000000000000000001178666800000000000000000000153437500000000000000000000000001143712500000000000000000000153425000000000000000000000000001128397100000000000000000000153412500000000000000000000000001178321500000000000000000000153400000000000000000000000000001187633700000000000000000000153387500000000000000000000000001178694500000000000000000000153375000000000000000000000000001179230500000000000000000000153362500000000000000000000000001205172200000000000000000000153350000000000000000000000000001150374000000000000000000000153337500000000000000000000000001301013600000000000000000000153325000000000000000000000000001307477300000000000000000000153312500000000000000000000000001157305000000000000000000000153300000000000000000000000000001092975200000000000000000000153287500000000000000000000000001156974300000000000000000000153275000000000000000000000000001086903400000000000000000000153262500000000000000000000000001129681100000000000000000000153250000000000000000000000000001174683900000000000000000000153237500000000000000000000000001249797000000000000000000000153225000000000000000000000000001217280500000000000000000000153212500000000000000000000000001111612900000000000000000000153200000000000000000000000000001086250000000000000000000000153187500000000000000000000000001173538400000000000000000000153175000000000000000000000000001228578900000000000000000000153162500000000000000000000000001219684000000000000000000000153150000000000000000000000000001159542000000000000000000000153137500000000000000000000000001171058200000000000000000000153125000000000000000000000000001120115900000000000000000000153112500000000000000000000000001083401500000000000000000000153100000000000000000000000000001123044600000000000000000000153087500000000000000000000000001066585600000000000000000000153075000000000000000000000000001109383400000000000000000000153062500000000000000000000000001124746200000000000000000000153050000000000000000000000000001188951900000000000000000000153037500000000000000000000000001204596700000000000000000000153025000000000000000000000000001178271100000000000000000000153012500000000000000000000000001161461600000000000000000000153000000000000000000000,
    1231919700000000000000000000154587500000000000000000000000001154973800000000000000000000154575000000000000000000000000001112123500000000000000000000154562500000000000000000000000001161895300000000000000000000154550000000000000000000000000001190387800000000000000000000154537500000000000000000000000001162196600000000000000000000154525000000000000000000000000001247439800000000000000000000154512500000000000000000000000001196411300000000000000000000154500000000000000000000000000001178789100000000000000000000154487500000000000000000000000001184230000000000000000000000154475000000000000000000000000001141175500000000000000000000154462500000000000000000000000001238671600000000000000000000154450000000000000000000000000001246418700000000000000000000154437500000000000000000000000001133851700000000000000000000154425000000000000000000000000001214522400000000000000000000154412500000000000000000000000001152663000000000000000000000154400000000000000000000000000001137586600000000000000000000154387500000000000000000000000001117111600000000000000000000154375000000000000000000000000001102424400000000000000000000154362500000000000000000000000001140961400000000000000000000154350000000000000000000000000001124782400000000000000000000154337500000000000000000000000001142527300000000000000000000154325000000000000000000000000001044824500000000000000000000154312500000000000000000000000001212026700000000000000000000154300000000000000000000000000001282567000000000000000000000154287500000000000000000000000001217121400000000000000000000154275000000000000000000000000001240558600000000000000000000154262500000000000000000000000001159748400000000000000000000154250000000000000000000000000001120909200000000000000000000154237500000000000000000000000001083672200000000000000000000154225000000000000000000000000001139993700000000000000000000154212500000000000000000000000001182489800000000000000000000154200000000000000000000000000001159085100000000000000000000154187500000000000000000000000001181641800000000000000000000154175000000000000000000000000001190387300000000000000000000154162500000000000000000000000001155347900000000000000000000154150000000000000000000000000001206459900000000000000000000154137500000000000000000000000001211025000000000000000000000154125000000000000000000000000001145416300000000000000000000154112500000000000000000000000001157104100000000000000000000154100000000000000000000000000001193266500000000000000000000154087500000000000000000000000001135574500000000000000000000154075000000000000000000000000001190160300000000000000000000154062500000000000000000000000001195751600000000000000000000154050000000000000000000000000001207616300000000000000000000154037500000000000000000000000001236658900000000000000000000154025000000000000000000000000001294869100000000000000000000154012500000000000000000000000001257606500000000000000000000154000000000000000000000000000001189860400000000000000000000153987500000000000000000000000001178997400000000000000000000153975000000000000000000000000001106818100000000000000000000153962500000000000000000000000001159461000000000000000000000153950000000000000000000000000001142798200000000000000000000153937500000000000000000000000001149236200000000000000000000153925000000000000000000000000001212427400000000000000000000153912500000000000000000000000001217728800000000000000000000153900000000000000000000000000001196839500000000000000000000153887500000000000000000000000001135973200000000000000000000153875000000000000000000000000001183998200000000000000000000153862500000000000000000000000001223599500000000000000000000153850000000000000000000000000001207443200000000000000000000153837500000000000000000000000001193031200000000000000000000153825000000000000000000000000001174917400000000000000000000153812500000000000000000000000001218251400000000000000000000153800000000000000000000,
    1161983400000000000000000000155387500000000000000000000000001231166500000000000000000000155375000000000000000000000000001203994500000000000000000000155362500000000000000000000000001160492300000000000000000000155350000000000000000000000000001120172300000000000000000000155337500000000000000000000000001259382900000000000000000000155325000000000000000000000000001165282700000000000000000000155312500000000000000000000000001049943700000000000000000000155300000000000000000000000000001068134800000000000000000000155287500000000000000000000000001091080500000000000000000000155275000000000000000000000000001106496700000000000000000000155262500000000000000000000000001135204700000000000000000000155250000000000000000000000000001252971900000000000000000000155237500000000000000000000000001381413600000000000000000000155225000000000000000000000000001225367600000000000000000000155212500000000000000000000000001174770000000000000000000000155200000000000000000000000000001198423100000000000000000000155187500000000000000000000000001168298600000000000000000000155175000000000000000000000000001226994700000000000000000000155162500000000000000000000000001266139800000000000000000000155150000000000000000000000000001220881300000000000000000000155137500000000000000000000000001230767500000000000000000000155125000000000000000000000000001195334200000000000000000000155112500000000000000000000000001206696300000000000000000000155100000000000000000000000000001270485100000000000000000000155087500000000000000000000000001208671300000000000000000000155075000000000000000000000000001170715400000000000000000000155062500000000000000000000000001239122600000000000000000000155050000000000000000000000000001253780300000000000000000000155037500000000000000000000000001103948500000000000000000000155025000000000000000000000000001147667600000000000000000000155012500000000000000000000000001174380600000000000000000000155000000000000000000000000000001160797500000000000000000000154987500000000000000000000000001169058500000000000000000000154975000000000000000000000000001146466200000000000000000000154962500000000000000000000000001139654800000000000000000000154950000000000000000000000000001059204100000000000000000000154937500000000000000000000000001093876200000000000000000000154925000000000000000000000000001178238900000000000000000000154912500000000000000000000000001251388600000000000000000000154900000000000000000000000000001140135600000000000000000000154887500000000000000000000000001096765400000000000000000000154875000000000000000000000000001144030800000000000000000000154862500000000000000000000000001246856200000000000000000000154850000000000000000000000000001257424900000000000000000000154837500000000000000000000000001248496300000000000000000000154825000000000000000000000000001133279800000000000000000000154812500000000000000000000000001171148100000000000000000000154800000000000000000000000000001233470400000000000000000000154787500000000000000000000000001097105500000000000000000000154775000000000000000000000000001113553400000000000000000000154762500000000000000000000000001193590100000000000000000000154750000000000000000000000000001287907900000000000000000000154737500000000000000000000000001158063900000000000000000000154725000000000000000000000000001098992500000000000000000000154712500000000000000000000000001117287600000000000000000000154700000000000000000000000000001081284000000000000000000000154687500000000000000000000000001104624200000000000000000000154675000000000000000000000000001179303400000000000000000000154662500000000000000000000000001187761500000000000000000000154650000000000000000000000000001195655700000000000000000000154637500000000000000000000000001231267600000000000000000000154625000000000000000000000000001159280400000000000000000000154612500000000000000000000000001155784700000000000000000000154600000000000000000000,
    1196989100000000000000000000156187500000000000000000000000001163087300000000000000000000156175000000000000000000000000001249105700000000000000000000156162500000000000000000000000001225289200000000000000000000156150000000000000000000000000001163207400000000000000000000156137500000000000000000000000001193100300000000000000000000156125000000000000000000000000001130061400000000000000000000156112500000000000000000000000001192772800000000000000000000156100000000000000000000000000001250694000000000000000000000156087500000000000000000000000001294989600000000000000000000156075000000000000000000000000001241627000000000000000000000156062500000000000000000000000001178103100000000000000000000156050000000000000000000000000001091171300000000000000000000156037500000000000000000000000001143325700000000000000000000156025000000000000000000000000001065944500000000000000000000156012500000000000000000000000001223575900000000000000000000156000000000000000000000000000001285094100000000000000000000155987500000000000000000000000001177246500000000000000000000155975000000000000000000000000001104494100000000000000000000155962500000000000000000000000001205172200000000000000000000155950000000000000000000000000001228391300000000000000000000155937500000000000000000000000001157616700000000000000000000155925000000000000000000000000001135897500000000000000000000155912500000000000000000000000001158693100000000000000000000155900000000000000000000000000001071547200000000000000000000155887500000000000000000000000001149075200000000000000000000155875000000000000000000000000001158114200000000000000000000155862500000000000000000000000001124974200000000000000000000155850000000000000000000000000001095969400000000000000000000155837500000000000000000000000001155896500000000000000000000155825000000000000000000000000001182004400000000000000000000155812500000000000000000000000001221521200000000000000000000155800000000000000000000000000001254968000000000000000000000155787500000000000000000000000001242396200000000000000000000155775000000000000000000000000001155399500000000000000000000155762500000000000000000000000001171073200000000000000000000155750000000000000000000000000001153690000000000000000000000155737500000000000000000000000001221922300000000000000000000155725000000000000000000000000001266257700000000000000000000155712500000000000000000000000001244063000000000000000000000155700000000000000000000000000001142570700000000000000000000155687500000000000000000000000001158805500000000000000000000155675000000000000000000000000001280912800000000000000000000155662500000000000000000000000001233938300000000000000000000155650000000000000000000000000001242757000000000000000000000155637500000000000000000000000001276576500000000000000000000155625000000000000000000000000001258439300000000000000000000155612500000000000000000000000001153071000000000000000000000155600000000000000000000000000001170704200000000000000000000155587500000000000000000000000001188123200000000000000000000155575000000000000000000000000001137760800000000000000000000155562500000000000000000000000001127478700000000000000000000155550000000000000000000000000001203721100000000000000000000155537500000000000000000000000001113938400000000000000000000155525000000000000000000000000001103808400000000000000000000155512500000000000000000000000001135252600000000000000000000155500000000000000000000000000001133256800000000000000000000155487500000000000000000000000001224081600000000000000000000155475000000000000000000000000001236799600000000000000000000155462500000000000000000000000001081925800000000000000000000155450000000000000000000000000001034330600000000000000000000155437500000000000000000000000001125348100000000000000000000155425000000000000000000000000001241898500000000000000000000155412500000000000000000000000001272249100000000000000000000155400000000000000000000,
    1271619700000000000000000000156987500000000000000000000000001219002100000000000000000000156975000000000000000000000000001244376900000000000000000000156962500000000000000000000000001173318900000000000000000000156950000000000000000000000000001177893200000000000000000000156937500000000000000000000000001108397900000000000000000000156925000000000000000000000000001093067000000000000000000000156912500000000000000000000000001098876400000000000000000000156900000000000000000000000000001195983300000000000000000000156887500000000000000000000000001242784500000000000000000000156875000000000000000000000000001248462300000000000000000000156862500000000000000000000000001188681600000000000000000000156850000000000000000000000000001255570100000000000000000000156837500000000000000000000000001281456000000000000000000000156825000000000000000000000000001324855800000000000000000000156812500000000000000000000000001191511000000000000000000000156800000000000000000000000000001281640300000000000000000000156787500000000000000000000000001221651000000000000000000000156775000000000000000000000000001197894000000000000000000000156762500000000000000000000000001184264700000000000000000000156750000000000000000000000000001267092000000000000000000000156737500000000000000000000000001234838100000000000000000000156725000000000000000000000000001069392100000000000000000000156712500000000000000000000000001039072100000000000000000000156700000000000000000000000000001069950400000000000000000000156687500000000000000000000000001206554400000000000000000000156675000000000000000000000000001133805600000000000000000000156662500000000000000000000000001210622100000000000000000000156650000000000000000000000000001371846000000000000000000000156637500000000000000000000000001279080200000000000000000000156625000000000000000000000000001235404000000000000000000000156612500000000000000000000000001164914400000000000000000000156600000000000000000000000000001260967100000000000000000000156587500000000000000000000000001325530600000000000000000000156575000000000000000000000000001271556600000000000000000000156562500000000000000000000000001185789100000000000000000000156550000000000000000000000000001191509100000000000000000000156537500000000000000000000000001245490900000000000000000000156525000000000000000000000000001176976700000000000000000000156512500000000000000000000000001214259600000000000000000000156500000000000000000000000000001239067100000000000000000000156487500000000000000000000000001154311700000000000000000000156475000000000000000000000000001140688500000000000000000000156462500000000000000000000000001207694700000000000000000000156450000000000000000000000000001213986100000000000000000000156437500000000000000000000000001104860900000000000000000000156425000000000000000000000000001225246100000000000000000000156412500000000000000000000000001171616600000000000000000000156400000000000000000000000000001164403800000000000000000000156387500000000000000000000000001194092000000000000000000000156375000000000000000000000000001203543200000000000000000000156362500000000000000000000000001281971200000000000000000000156350000000000000000000000000001175879200000000000000000000156337500000000000000000000000001248896500000000000000000000156325000000000000000000000000001344210300000000000000000000156312500000000000000000000000001282881500000000000000000000156300000000000000000000000000001244943700000000000000000000156287500000000000000000000000001176454500000000000000000000156275000000000000000000000000001244046000000000000000000000156262500000000000000000000000001243575400000000000000000000156250000000000000000000000000001236923300000000000000000000156237500000000000000000000000001154326500000000000000000000156225000000000000000000000000001051696400000000000000000000156212500000000000000000000000001130370000000000000000000000156200000000000000000000,
    1218551800000000000000000000157787500000000000000000000000001196572100000000000000000000157775000000000000000000000000001114579400000000000000000000157762500000000000000000000000001093573000000000000000000000157750000000000000000000000000001106100700000000000000000000157737500000000000000000000000001178734800000000000000000000157725000000000000000000000000001139668400000000000000000000157712500000000000000000000000001140056600000000000000000000157700000000000000000000000000001220940500000000000000000000157687500000000000000000000000001260607200000000000000000000157675000000000000000000000000001305565400000000000000000000157662500000000000000000000000001242223400000000000000000000157650000000000000000000000000001237196100000000000000000000157637500000000000000000000000001215166400000000000000000000157625000000000000000000000000001166475400000000000000000000157612500000000000000000000000001163727300000000000000000000157600000000000000000000000000001117241700000000000000000000157587500000000000000000000000001156920700000000000000000000157575000000000000000000000000001209655400000000000000000000157562500000000000000000000000001188005300000000000000000000157550000000000000000000000000001211295700000000000000000000157537500000000000000000000000001152268500000000000000000000157525000000000000000000000000001155130100000000000000000000157512500000000000000000000000001198707600000000000000000000157500000000000000000000000000001232068300000000000000000000157487500000000000000000000000001212149600000000000000000000157475000000000000000000000000001106497600000000000000000000157462500000000000000000000000001089588900000000000000000000157450000000000000000000000000001084561600000000000000000000157437500000000000000000000000001190298400000000000000000000157425000000000000000000000000001193906600000000000000000000157412500000000000000000000000001208446700000000000000000000157400000000000000000000000000001181124100000000000000000000157387500000000000000000000000001069906500000000000000000000157375000000000000000000000000001172284200000000000000000000157362500000000000000000000000001225413600000000000000000000157350000000000000000000000000001143537600000000000000000000157337500000000000000000000000001149994700000000000000000000157325000000000000000000000000001126038900000000000000000000157312500000000000000000000000001127253900000000000000000000157300000000000000000000000000001253861900000000000000000000157287500000000000000000000000001220561100000000000000000000157275000000000000000000000000001269099000000000000000000000157262500000000000000000000000001253316200000000000000000000157250000000000000000000000000001232800700000000000000000000157237500000000000000000000000001188257500000000000000000000157225000000000000000000000000001221372000000000000000000000157212500000000000000000000000001259993700000000000000000000157200000000000000000000000000001210358700000000000000000000157187500000000000000000000000001121689300000000000000000000157175000000000000000000000000001129013600000000000000000000157162500000000000000000000000001157652100000000000000000000157150000000000000000000000000001137209900000000000000000000157137500000000000000000000000001123855800000000000000000000157125000000000000000000000000001278549100000000000000000000157112500000000000000000000000001175330500000000000000000000157100000000000000000000000000001158920500000000000000000000157087500000000000000000000000001239383500000000000000000000157075000000000000000000000000001213571000000000000000000000157062500000000000000000000000001258283900000000000000000000157050000000000000000000000000001228157800000000000000000000157037500000000000000000000000001142384100000000000000000000157025000000000000000000000000001168904000000000000000000000157012500000000000000000000000001255959800000000000000000000157000000000000000000000,
    1120724900000000000000000000158587500000000000000000000000001129730500000000000000000000158575000000000000000000000000001145651200000000000000000000158562500000000000000000000000001176600800000000000000000000158550000000000000000000000000001145451100000000000000000000158537500000000000000000000000001140285200000000000000000000158525000000000000000000000000001213607400000000000000000000158512500000000000000000000000001154166500000000000000000000158500000000000000000000000000001146318600000000000000000000158487500000000000000000000000001129139800000000000000000000158475000000000000000000000000001148357000000000000000000000158462500000000000000000000000001221091000000000000000000000158450000000000000000000000000001251242400000000000000000000158437500000000000000000000000001309163300000000000000000000158425000000000000000000000000001341913000000000000000000000158412500000000000000000000000001263077400000000000000000000158400000000000000000000000000001159963300000000000000000000158387500000000000000000000000001220110600000000000000000000158375000000000000000000000000001211083200000000000000000000158362500000000000000000000000001191740300000000000000000000158350000000000000000000000000001214456200000000000000000000158337500000000000000000000000001090790700000000000000000000158325000000000000000000000000001161721300000000000000000000158312500000000000000000000000001275256100000000000000000000158300000000000000000000000000001177854400000000000000000000158287500000000000000000000000001119397000000000000000000000158275000000000000000000000000001052462500000000000000000000158262500000000000000000000000001128586800000000000000000000158250000000000000000000000000001150796400000000000000000000158237500000000000000000000000001180098800000000000000000000158225000000000000000000000000001206034100000000000000000000158212500000000000000000000000001130538700000000000000000000158200000000000000000000000000001179215700000000000000000000158187500000000000000000000000001283670500000000000000000000158175000000000000000000000000001269322500000000000000000000158162500000000000000000000000001223195200000000000000000000158150000000000000000000000000001273462200000000000000000000158137500000000000000000000000001270268300000000000000000000158125000000000000000000000000001171438000000000000000000000158112500000000000000000000000001198625300000000000000000000158100000000000000000000000000001159524900000000000000000000158087500000000000000000000000001155769400000000000000000000158075000000000000000000000000001144865900000000000000000000158062500000000000000000000000001082179300000000000000000000158050000000000000000000000000001139133300000000000000000000158037500000000000000000000000001199701400000000000000000000158025000000000000000000000000001162476100000000000000000000158012500000000000000000000000001132259300000000000000000000158000000000000000000000000000001208048600000000000000000000157987500000000000000000000000001240964200000000000000000000157975000000000000000000000000001131108200000000000000000000157962500000000000000000000000001176736300000000000000000000157950000000000000000000000000001147698400000000000000000000157937500000000000000000000000001224715400000000000000000000157925000000000000000000000000001163133800000000000000000000157912500000000000000000000000001105966100000000000000000000157900000000000000000000000000001143193200000000000000000000157887500000000000000000000000001179388400000000000000000000157875000000000000000000000000001145561800000000000000000000157862500000000000000000000000001124825100000000000000000000157850000000000000000000000000001200238600000000000000000000157837500000000000000000000000001317673400000000000000000000157825000000000000000000000000001234367200000000000000000000157812500000000000000000000000001283349100000000000000000000157800000000000000000000,
    1144681300000000000000000000159387500000000000000000000000001113695700000000000000000000159375000000000000000000000000001214463100000000000000000000159362500000000000000000000000001175328900000000000000000000159350000000000000000000000000001116680500000000000000000000159337500000000000000000000000001106130500000000000000000000159325000000000000000000000000001068506200000000000000000000159312500000000000000000000000001262968000000000000000000000159300000000000000000000000000001249229600000000000000000000159287500000000000000000000000001165376500000000000000000000159275000000000000000000000000001167189200000000000000000000159262500000000000000000000000001266831400000000000000000000159250000000000000000000000000001297743700000000000000000000159237500000000000000000000000001238764500000000000000000000159225000000000000000000000000001259619200000000000000000000159212500000000000000000000000001175279700000000000000000000159200000000000000000000000000001143948300000000000000000000159187500000000000000000000000001148236700000000000000000000159175000000000000000000000000001134241000000000000000000000159162500000000000000000000000001219159800000000000000000000159150000000000000000000000000001237559600000000000000000000159137500000000000000000000000001122542900000000000000000000159125000000000000000000000000001114869300000000000000000000159112500000000000000000000000001101796600000000000000000000159100000000000000000000000000001156644400000000000000000000159087500000000000000000000000001104720000000000000000000000159075000000000000000000000000001197045800000000000000000000159062500000000000000000000000001205673800000000000000000000159050000000000000000000000000001237033400000000000000000000159037500000000000000000000000001223969700000000000000000000159025000000000000000000000000001252846600000000000000000000159012500000000000000000000000001247836600000000000000000000159000000000000000000000000000001174112000000000000000000000158987500000000000000000000000001313886400000000000000000000158975000000000000000000000000001360413800000000000000000000158962500000000000000000000000001270992300000000000000000000158950000000000000000000000000001216944500000000000000000000158937500000000000000000000000001176544800000000000000000000158925000000000000000000000000001118503700000000000000000000158912500000000000000000000000001195271500000000000000000000158900000000000000000000000000001268115400000000000000000000158887500000000000000000000000001119219700000000000000000000158875000000000000000000000000001133000100000000000000000000158862500000000000000000000000001285287700000000000000000000158850000000000000000000000000001279579600000000000000000000158837500000000000000000000000001192348500000000000000000000158825000000000000000000000000001230836600000000000000000000158812500000000000000000000000001206643600000000000000000000158800000000000000000000000000001271895900000000000000000000158787500000000000000000000000001232461900000000000000000000158775000000000000000000000000001210477300000000000000000000158762500000000000000000000000001219834400000000000000000000158750000000000000000000000000001157625100000000000000000000158737500000000000000000000000001051021000000000000000000000158725000000000000000000000000001230529200000000000000000000158712500000000000000000000000001311505000000000000000000000158700000000000000000000000000001297268800000000000000000000158687500000000000000000000000001178479000000000000000000000158675000000000000000000000000001124917400000000000000000000158662500000000000000000000000001143104500000000000000000000158650000000000000000000000000001232280800000000000000000000158637500000000000000000000000001230333900000000000000000000158625000000000000000000000000001226377600000000000000000000158612500000000000000000000000001184664400000000000000000000158600000000000000000000,
    1206869800000000000000000000160187500000000000000000000000001178198900000000000000000000160175000000000000000000000000001226760900000000000000000000160162500000000000000000000000001201024800000000000000000000160150000000000000000000000000001261075500000000000000000000160137500000000000000000000000001265514400000000000000000000160125000000000000000000000000001141881900000000000000000000160112500000000000000000000000001157992000000000000000000000160100000000000000000000000000001298116900000000000000000000160087500000000000000000000000001243250800000000000000000000160075000000000000000000000000001240335600000000000000000000160062500000000000000000000000001245366600000000000000000000160050000000000000000000000000001288321600000000000000000000160037500000000000000000000000001213790400000000000000000000160025000000000000000000000000001324062400000000000000000000160012500000000000000000000000001295067300000000000000000000160000000000000000000000000000001304669100000000000000000000159987500000000000000000000000001250262800000000000000000000159975000000000000000000000000001206797100000000000000000000159962500000000000000000000000001175780700000000000000000000159950000000000000000000000000001211130800000000000000000000159937500000000000000000000000001227382700000000000000000000159925000000000000000000000000001131217400000000000000000000159912500000000000000000000000001186793800000000000000000000159900000000000000000000000000001269769600000000000000000000159887500000000000000000000000001266235400000000000000000000159875000000000000000000000000001243215700000000000000000000159862500000000000000000000000001217117200000000000000000000159850000000000000000000000000001162533700000000000000000000159837500000000000000000000000001137415700000000000000000000159825000000000000000000000000001261992400000000000000000000159812500000000000000000000000001399990300000000000000000000159800000000000000000000000000001320615600000000000000000000159787500000000000000000000000001237307900000000000000000000159775000000000000000000000000001184633000000000000000000000159762500000000000000000000000001122205700000000000000000000159750000000000000000000000000001138582300000000000000000000159737500000000000000000000000001153715900000000000000000000159725000000000000000000000000001237716700000000000000000000159712500000000000000000000000001199168400000000000000000000159700000000000000000000000000001129715100000000000000000000159687500000000000000000000000001101069000000000000000000000159675000000000000000000000000001125693900000000000000000000159662500000000000000000000000001139765800000000000000000000159650000000000000000000000000001180144500000000000000000000159637500000000000000000000000001286797000000000000000000000159625000000000000000000000000001316234800000000000000000000159612500000000000000000000000001254061400000000000000000000159600000000000000000000000000001345915700000000000000000000159587500000000000000000000000001294415400000000000000000000159575000000000000000000000000001228375300000000000000000000159562500000000000000000000000001190090500000000000000000000159550000000000000000000000000001173703900000000000000000000159537500000000000000000000000001219502300000000000000000000159525000000000000000000000000001248782600000000000000000000159512500000000000000000000000001132741100000000000000000000159500000000000000000000000000001144558700000000000000000000159487500000000000000000000000001195784300000000000000000000159475000000000000000000000000001222951000000000000000000000159462500000000000000000000000001307008300000000000000000000159450000000000000000000000000001248351800000000000000000000159437500000000000000000000000001222083300000000000000000000159425000000000000000000000000001258593100000000000000000000159412500000000000000000000000001301837800000000000000000000159400000000000000000000,
    1159192800000000000000000000160987500000000000000000000000001111232200000000000000000000160975000000000000000000000000001105353400000000000000000000160962500000000000000000000000001186485100000000000000000000160950000000000000000000000000001188710100000000000000000000160937500000000000000000000000001194075800000000000000000000160925000000000000000000000000001140436300000000000000000000160912500000000000000000000000001167126000000000000000000000160900000000000000000000000000001123875100000000000000000000160887500000000000000000000000001181431300000000000000000000160875000000000000000000000000001253630600000000000000000000160862500000000000000000000000001276794200000000000000000000160850000000000000000000000000001260076100000000000000000000160837500000000000000000000000001245900500000000000000000000160825000000000000000000000000001220156000000000000000000000160812500000000000000000000000001196844300000000000000000000160800000000000000000000000000001187297800000000000000000000160787500000000000000000000000001298931100000000000000000000160775000000000000000000000000001294914800000000000000000000160762500000000000000000000000001172444700000000000000000000160750000000000000000000000000001120435300000000000000000000160737500000000000000000000000001124014200000000000000000000160725000000000000000000000000001169002000000000000000000000160712500000000000000000000000001203228200000000000000000000160700000000000000000000000000001221984600000000000000000000160687500000000000000000000000001242174100000000000000000000160675000000000000000000000000001105185500000000000000000000160662500000000000000000000000001188302800000000000000000000160650000000000000000000000000001332864800000000000000000000160637500000000000000000000000001236738000000000000000000000160625000000000000000000000000001165396400000000000000000000160612500000000000000000000000001224593200000000000000000000160600000000000000000000000000001228598900000000000000000000160587500000000000000000000000001229927200000000000000000000160575000000000000000000000000001219799100000000000000000000160562500000000000000000000000001204085800000000000000000000160550000000000000000000000000001290601900000000000000000000160537500000000000000000000000001278109300000000000000000000160525000000000000000000000000001115093100000000000000000000160512500000000000000000000000001093244400000000000000000000160500000000000000000000000000001178518700000000000000000000160487500000000000000000000000001259077900000000000000000000160475000000000000000000000000001144494800000000000000000000160462500000000000000000000000001177476500000000000000000000160450000000000000000000000000001328593000000000000000000000160437500000000000000000000000001308310300000000000000000000160425000000000000000000000000001240952500000000000000000000160412500000000000000000000000001112813700000000000000000000160400000000000000000000000000001112932500000000000000000000160387500000000000000000000000001234085300000000000000000000160375000000000000000000000000001244448300000000000000000000160362500000000000000000000000001306564000000000000000000000160350000000000000000000000000001295170100000000000000000000160337500000000000000000000000001193531500000000000000000000160325000000000000000000000000001295790300000000000000000000160312500000000000000000000000001291000000000000000000000000160300000000000000000000000000001226275600000000000000000000160287500000000000000000000000001149172100000000000000000000160275000000000000000000000000001149852200000000000000000000160262500000000000000000000000001138810200000000000000000000160250000000000000000000000000001208800700000000000000000000160237500000000000000000000000001323930000000000000000000000160225000000000000000000000000001360437400000000000000000000160212500000000000000000000000001287159400000000000000000000160200000000000000000000,
    1203349900000000000000000000161787500000000000000000000000001239447000000000000000000000161775000000000000000000000000001281207700000000000000000000161762500000000000000000000000001245069700000000000000000000161750000000000000000000000000001225699300000000000000000000161737500000000000000000000000001216971200000000000000000000161725000000000000000000000000001143726500000000000000000000161712500000000000000000000000001194776500000000000000000000161700000000000000000000000000001234255500000000000000000000161687500000000000000000000000001313000700000000000000000000161675000000000000000000000000001264661200000000000000000000161662500000000000000000000000001250698600000000000000000000161650000000000000000000000000001347714900000000000000000000161637500000000000000000000000001334976800000000000000000000161625000000000000000000000000001219617200000000000000000000161612500000000000000000000000001262074300000000000000000000161600000000000000000000000000001208407600000000000000000000161587500000000000000000000000001094755300000000000000000000161575000000000000000000000000001118081000000000000000000000161562500000000000000000000000001196922100000000000000000000161550000000000000000000000000001127846300000000000000000000161537500000000000000000000000001158466900000000000000000000161525000000000000000000000000001149998500000000000000000000161512500000000000000000000000001205741400000000000000000000161500000000000000000000000000001298781100000000000000000000161487500000000000000000000000001142754500000000000000000000161475000000000000000000000000001121745300000000000000000000161462500000000000000000000000001201036100000000000000000000161450000000000000000000000000001236118200000000000000000000161437500000000000000000000000001195761300000000000000000000161425000000000000000000000000001216230800000000000000000000161412500000000000000000000000001147398900000000000000000000161400000000000000000000000000001166054900000000000000000000161387500000000000000000000000001228999300000000000000000000161375000000000000000000000000001096529100000000000000000000161362500000000000000000000000001101558300000000000000000000161350000000000000000000000000001254148500000000000000000000161337500000000000000000000000001263497000000000000000000000161325000000000000000000000000001177237100000000000000000000161312500000000000000000000000001216919300000000000000000000161300000000000000000000000000001299307900000000000000000000161287500000000000000000000000001216026100000000000000000000161275000000000000000000000000001265942100000000000000000000161262500000000000000000000000001270885200000000000000000000161250000000000000000000000000001176723200000000000000000000161237500000000000000000000000001164913300000000000000000000161225000000000000000000000000001242662600000000000000000000161212500000000000000000000000001269755600000000000000000000161200000000000000000000000000001363173500000000000000000000161187500000000000000000000000001275516700000000000000000000161175000000000000000000000000001229360000000000000000000000161162500000000000000000000000001238225100000000000000000000161150000000000000000000000000001195750800000000000000000000161137500000000000000000000000001207253400000000000000000000161125000000000000000000000000001194563500000000000000000000161112500000000000000000000000001141564500000000000000000000161100000000000000000000000000001165326400000000000000000000161087500000000000000000000000001235122700000000000000000000161075000000000000000000000000001287483300000000000000000000161062500000000000000000000000001267388400000000000000000000161050000000000000000000000000001258502600000000000000000000161037500000000000000000000000001221168700000000000000000000161025000000000000000000000000001170887400000000000000000000161012500000000000000000000000001208530700000000000000000000161000000000000000000000,
    1203605100000000000000000000162587500000000000000000000000001210796400000000000000000000162575000000000000000000000000001259577900000000000000000000162562500000000000000000000000001239891500000000000000000000162550000000000000000000000000001169422700000000000000000000162537500000000000000000000000001213576800000000000000000000162525000000000000000000000000001169508200000000000000000000162512500000000000000000000000001194015000000000000000000000162500000000000000000000000000001201874400000000000000000000162487500000000000000000000000001268565600000000000000000000162475000000000000000000000000001218745700000000000000000000162462500000000000000000000000001219601800000000000000000000162450000000000000000000000000001234969400000000000000000000162437500000000000000000000000001146618800000000000000000000162425000000000000000000000000001217659000000000000000000000162412500000000000000000000000001280659700000000000000000000162400000000000000000000000000001191890700000000000000000000162387500000000000000000000000001225529500000000000000000000162375000000000000000000000000001264620600000000000000000000162362500000000000000000000000001224343000000000000000000000162350000000000000000000000000001141172400000000000000000000162337500000000000000000000000001288096400000000000000000000162325000000000000000000000000001384656700000000000000000000162312500000000000000000000000001276036100000000000000000000162300000000000000000000000000001287833500000000000000000000162287500000000000000000000000001411120100000000000000000000162275000000000000000000000000001287280900000000000000000000162262500000000000000000000000001270267500000000000000000000162250000000000000000000000000001228142200000000000000000000162237500000000000000000000000001317297300000000000000000000162225000000000000000000000000001329282500000000000000000000162212500000000000000000000000001215704500000000000000000000162200000000000000000000000000001191017900000000000000000000162187500000000000000000000000001112503100000000000000000000162175000000000000000000000000001023795300000000000000000000162162500000000000000000000000001153403300000000000000000000162150000000000000000000000000001164388100000000000000000000162137500000000000000000000000001255212200000000000000000000162125000000000000000000000000001315694800000000000000000000162112500000000000000000000000001228242400000000000000000000162100000000000000000000000000001164474300000000000000000000162087500000000000000000000000001170908800000000000000000000162075000000000000000000000000001136548600000000000000000000162062500000000000000000000000001155939800000000000000000000162050000000000000000000000000001338217300000000000000000000162037500000000000000000000000001261258200000000000000000000162025000000000000000000000000001120947700000000000000000000162012500000000000000000000000001213897800000000000000000000162000000000000000000000000000001269255900000000000000000000161987500000000000000000000000001193993100000000000000000000161975000000000000000000000000001124868700000000000000000000161962500000000000000000000000001128206300000000000000000000161950000000000000000000000000001275029100000000000000000000161937500000000000000000000000001251148300000000000000000000161925000000000000000000000000001210863800000000000000000000161912500000000000000000000000001184822800000000000000000000161900000000000000000000000000001269041600000000000000000000161887500000000000000000000000001253078400000000000000000000161875000000000000000000000000001214699900000000000000000000161862500000000000000000000000001316502800000000000000000000161850000000000000000000000000001289737600000000000000000000161837500000000000000000000000001240400000000000000000000000161825000000000000000000000000001239762300000000000000000000161812500000000000000000000000001220431700000000000000000000161800000000000000000000,
    1279188700000000000000000000163387500000000000000000000000001289589200000000000000000000163375000000000000000000000000001193226500000000000000000000163362500000000000000000000000001179140000000000000000000000163350000000000000000000000000001286331600000000000000000000163337500000000000000000000000001250208000000000000000000000163325000000000000000000000000001345964200000000000000000000163312500000000000000000000000001432612200000000000000000000163300000000000000000000000000001389037000000000000000000000163287500000000000000000000000001255113200000000000000000000163275000000000000000000000000001386956300000000000000000000163262500000000000000000000000001377501600000000000000000000163250000000000000000000000000001209362900000000000000000000163237500000000000000000000000001081202600000000000000000000163225000000000000000000000000001152404200000000000000000000163212500000000000000000000000001170786400000000000000000000163200000000000000000000000000001204490100000000000000000000163187500000000000000000000000001164123300000000000000000000163175000000000000000000000000001134652800000000000000000000163162500000000000000000000000001120084200000000000000000000163150000000000000000000000000001203836900000000000000000000163137500000000000000000000000001234912300000000000000000000163125000000000000000000000000001028132800000000000000000000163112500000000000000000000000001084105200000000000000000000163100000000000000000000000000001207172800000000000000000000163087500000000000000000000000001164519600000000000000000000163075000000000000000000000000001216013400000000000000000000163062500000000000000000000000001243209200000000000000000000163050000000000000000000000000001202514300000000000000000000163037500000000000000000000000001119206900000000000000000000163025000000000000000000000000001101725600000000000000000000163012500000000000000000000000001269265900000000000000000000163000000000000000000000000000001255923900000000000000000000162987500000000000000000000000001271925800000000000000000000162975000000000000000000000000001223210700000000000000000000162962500000000000000000000000001291089000000000000000000000162950000000000000000000000000001234951200000000000000000000162937500000000000000000000000001138141300000000000000000000162925000000000000000000000000001150517500000000000000000000162912500000000000000000000000001188869200000000000000000000162900000000000000000000000000001268049000000000000000000000162887500000000000000000000000001165804300000000000000000000162875000000000000000000000000001189782500000000000000000000162862500000000000000000000000001179949300000000000000000000162850000000000000000000000000001299179600000000000000000000162837500000000000000000000000001336746300000000000000000000162825000000000000000000000000001182769000000000000000000000162812500000000000000000000000001201587300000000000000000000162800000000000000000000000000001203611800000000000000000000162787500000000000000000000000001190622400000000000000000000162775000000000000000000000000001343096200000000000000000000162762500000000000000000000000001417614200000000000000000000162750000000000000000000000000001230048300000000000000000000162737500000000000000000000000001169563300000000000000000000162725000000000000000000000000001181477100000000000000000000162712500000000000000000000000001278464900000000000000000000162700000000000000000000000000001254094800000000000000000000162687500000000000000000000000001265544800000000000000000000162675000000000000000000000000001098274500000000000000000000162662500000000000000000000000001146102900000000000000000000162650000000000000000000000000001231128300000000000000000000162637500000000000000000000000001183828300000000000000000000162625000000000000000000000000001163320800000000000000000000162612500000000000000000000000001234874700000000000000000000162600000000000000000000,
    1146107600000000000000000000164187500000000000000000000000001160037400000000000000000000164175000000000000000000000000001281082000000000000000000000164162500000000000000000000000001227894700000000000000000000164150000000000000000000000000001195958900000000000000000000164137500000000000000000000000001152124600000000000000000000164125000000000000000000000000001210638500000000000000000000164112500000000000000000000000001135410500000000000000000000164100000000000000000000000000001152099900000000000000000000164087500000000000000000000000001205787800000000000000000000164075000000000000000000000000001191818400000000000000000000164062500000000000000000000000001271822100000000000000000000164050000000000000000000000000001230206600000000000000000000164037500000000000000000000000001241280200000000000000000000164025000000000000000000000000001204183400000000000000000000164012500000000000000000000000001264867700000000000000000000164000000000000000000000000000001270003900000000000000000000163987500000000000000000000000001243996800000000000000000000163975000000000000000000000000001277676600000000000000000000163962500000000000000000000000001100736500000000000000000000163950000000000000000000000000001190386600000000000000000000163937500000000000000000000000001196803300000000000000000000163925000000000000000000000000001233184300000000000000000000163912500000000000000000000000001228918800000000000000000000163900000000000000000000000000001222432100000000000000000000163887500000000000000000000000001234992500000000000000000000163875000000000000000000000000001287911800000000000000000000163862500000000000000000000000001147427800000000000000000000163850000000000000000000000000001257093100000000000000000000163837500000000000000000000000001144799300000000000000000000163825000000000000000000000000001146802300000000000000000000163812500000000000000000000000001254488800000000000000000000163800000000000000000000000000001237197500000000000000000000163787500000000000000000000000001218920300000000000000000000163775000000000000000000000000001215614200000000000000000000163762500000000000000000000000001231331500000000000000000000163750000000000000000000000000001272793300000000000000000000163737500000000000000000000000001217161700000000000000000000163725000000000000000000000000001153165100000000000000000000163712500000000000000000000000001243544500000000000000000000163700000000000000000000000000001179024000000000000000000000163687500000000000000000000000001258117000000000000000000000163675000000000000000000000000001274796200000000000000000000163662500000000000000000000000001291802000000000000000000000163650000000000000000000000000001188673700000000000000000000163637500000000000000000000000001183879600000000000000000000163625000000000000000000000000001238760900000000000000000000163612500000000000000000000000001252402900000000000000000000163600000000000000000000000000001271066700000000000000000000163587500000000000000000000000001275657800000000000000000000163575000000000000000000000000001212485300000000000000000000163562500000000000000000000000001155980400000000000000000000163550000000000000000000000000001206437400000000000000000000163537500000000000000000000000001331586600000000000000000000163525000000000000000000000000001274936800000000000000000000163512500000000000000000000000001300224200000000000000000000163500000000000000000000000000001282361500000000000000000000163487500000000000000000000000001149206400000000000000000000163475000000000000000000000000001219945300000000000000000000163462500000000000000000000000001231814400000000000000000000163450000000000000000000000000001176681300000000000000000000163437500000000000000000000000001230213800000000000000000000163425000000000000000000000000001199227100000000000000000000163412500000000000000000000000001235501800000000000000000000163400000000000000000000,
    1243103600000000000000000000164987500000000000000000000000001257587200000000000000000000164975000000000000000000000000001214827100000000000000000000164962500000000000000000000000001195954800000000000000000000164950000000000000000000000000001212848700000000000000000000164937500000000000000000000000001317684200000000000000000000164925000000000000000000000000001388245700000000000000000000164912500000000000000000000000001229401500000000000000000000164900000000000000000000000000001149455100000000000000000000164887500000000000000000000000001162629900000000000000000000164875000000000000000000000000001209946700000000000000000000164862500000000000000000000000001173190100000000000000000000164850000000000000000000000000001151002400000000000000000000164837500000000000000000000000001185508700000000000000000000164825000000000000000000000000001204982800000000000000000000164812500000000000000000000000001207866100000000000000000000164800000000000000000000000000001242167300000000000000000000164787500000000000000000000000001195196500000000000000000000164775000000000000000000000000001176875700000000000000000000164762500000000000000000000000001137102400000000000000000000164750000000000000000000000000001164447300000000000000000000164737500000000000000000000000001237013900000000000000000000164725000000000000000000000000001239782300000000000000000000164712500000000000000000000000001162866200000000000000000000164700000000000000000000000000001220376100000000000000000000164687500000000000000000000000001385598300000000000000000000164675000000000000000000000000001340708300000000000000000000164662500000000000000000000000001250836900000000000000000000164650000000000000000000000000001179113600000000000000000000164637500000000000000000000000001169573700000000000000000000164625000000000000000000000000001257481300000000000000000000164612500000000000000000000000001284244300000000000000000000164600000000000000000000000000001229089100000000000000000000164587500000000000000000000000001234952800000000000000000000164575000000000000000000000000001257603500000000000000000000164562500000000000000000000000001334258800000000000000000000164550000000000000000000000000001313534600000000000000000000164537500000000000000000000000001316074700000000000000000000164525000000000000000000000000001239031400000000000000000000164512500000000000000000000000001203378200000000000000000000164500000000000000000000000000001307794300000000000000000000164487500000000000000000000000001299769700000000000000000000164475000000000000000000000000001325201200000000000000000000164462500000000000000000000000001259919400000000000000000000164450000000000000000000000000001253851600000000000000000000164437500000000000000000000000001322452800000000000000000000164425000000000000000000000000001320829400000000000000000000164412500000000000000000000000001412610600000000000000000000164400000000000000000000000000001395913000000000000000000000164387500000000000000000000000001157544000000000000000000000164375000000000000000000000000001152200700000000000000000000164362500000000000000000000000001384245300000000000000000000164350000000000000000000000000001344596500000000000000000000164337500000000000000000000000001284048300000000000000000000164325000000000000000000000000001277880700000000000000000000164312500000000000000000000000001233122100000000000000000000164300000000000000000000000000001231780600000000000000000000164287500000000000000000000000001299701800000000000000000000164275000000000000000000000000001349086300000000000000000000164262500000000000000000000000001321726300000000000000000000164250000000000000000000000000001297727500000000000000000000164237500000000000000000000000001175058100000000000000000000164225000000000000000000000000001259224300000000000000000000164212500000000000000000000000001236270300000000000000000000164200000000000000000000,
    1284035200000000000000000000165787500000000000000000000000001225016800000000000000000000165775000000000000000000000000001247178400000000000000000000165762500000000000000000000000001254587000000000000000000000165750000000000000000000000000001142037100000000000000000000165737500000000000000000000000001164059100000000000000000000165725000000000000000000000000001309448700000000000000000000165712500000000000000000000000001336292700000000000000000000165700000000000000000000000000001306216800000000000000000000165687500000000000000000000000001303951600000000000000000000165675000000000000000000000000001257468200000000000000000000165662500000000000000000000000001253066700000000000000000000165650000000000000000000000000001273558800000000000000000000165637500000000000000000000000001223624400000000000000000000165625000000000000000000000000001252127800000000000000000000165612500000000000000000000000001296216300000000000000000000165600000000000000000000000000001313062800000000000000000000165587500000000000000000000000001343584600000000000000000000165575000000000000000000000000001287750500000000000000000000165562500000000000000000000000001193632900000000000000000000165550000000000000000000000000001262585500000000000000000000165537500000000000000000000000001273670200000000000000000000165525000000000000000000000000001317578300000000000000000000165512500000000000000000000000001290893400000000000000000000165500000000000000000000000000001268088000000000000000000000165487500000000000000000000000001253414600000000000000000000165475000000000000000000000000001199493700000000000000000000165462500000000000000000000000001225783700000000000000000000165450000000000000000000000000001187511600000000000000000000165437500000000000000000000000001159014600000000000000000000165425000000000000000000000000001211607300000000000000000000165412500000000000000000000000001202366800000000000000000000165400000000000000000000000000001188260800000000000000000000165387500000000000000000000000001300401900000000000000000000165375000000000000000000000000001298258700000000000000000000165362500000000000000000000000001309441800000000000000000000165350000000000000000000000000001257939500000000000000000000165337500000000000000000000000001178690400000000000000000000165325000000000000000000000000001172931200000000000000000000165312500000000000000000000000001287697900000000000000000000165300000000000000000000000000001330850900000000000000000000165287500000000000000000000000001351075100000000000000000000165275000000000000000000000000001311883700000000000000000000165262500000000000000000000000001241465800000000000000000000165250000000000000000000000000001311694900000000000000000000165237500000000000000000000000001303878800000000000000000000165225000000000000000000000000001217213300000000000000000000165212500000000000000000000000001153092200000000000000000000165200000000000000000000000000001121166000000000000000000000165187500000000000000000000000001269254700000000000000000000165175000000000000000000000000001250494800000000000000000000165162500000000000000000000000001203939000000000000000000000165150000000000000000000000000001189799000000000000000000000165137500000000000000000000000001172443500000000000000000000165125000000000000000000000000001272162900000000000000000000165112500000000000000000000000001338046000000000000000000000165100000000000000000000000000001260749600000000000000000000165087500000000000000000000000001231911500000000000000000000165075000000000000000000000000001256134200000000000000000000165062500000000000000000000000001279590200000000000000000000165050000000000000000000000000001266790800000000000000000000165037500000000000000000000000001339279100000000000000000000165025000000000000000000000000001326938700000000000000000000165012500000000000000000000000001272476600000000000000000000165000000000000000000000,
    1295420500000000000000000000166587500000000000000000000000001285474600000000000000000000166575000000000000000000000000001197040300000000000000000000166562500000000000000000000000001330576000000000000000000000166550000000000000000000000000001347307400000000000000000000166537500000000000000000000000001307178900000000000000000000166525000000000000000000000000001308567400000000000000000000166512500000000000000000000000001296530800000000000000000000166500000000000000000000000000001169135100000000000000000000166487500000000000000000000000001286533200000000000000000000166475000000000000000000000000001218480200000000000000000000166462500000000000000000000000001255385700000000000000000000166450000000000000000000000000001320675600000000000000000000166437500000000000000000000000001273463300000000000000000000166425000000000000000000000000001280071500000000000000000000166412500000000000000000000000001289755700000000000000000000166400000000000000000000000000001270072600000000000000000000166387500000000000000000000000001294917700000000000000000000166375000000000000000000000000001270869500000000000000000000166362500000000000000000000000001276063000000000000000000000166350000000000000000000000000001278864300000000000000000000166337500000000000000000000000001293902100000000000000000000166325000000000000000000000000001314142800000000000000000000166312500000000000000000000000001307765000000000000000000000166300000000000000000000000000001223031400000000000000000000166287500000000000000000000000001286728900000000000000000000166275000000000000000000000000001242222700000000000000000000166262500000000000000000000000001325457700000000000000000000166250000000000000000000000000001416986100000000000000000000166237500000000000000000000000001279203700000000000000000000166225000000000000000000000000001261716700000000000000000000166212500000000000000000000000001286656400000000000000000000166200000000000000000000000000001188135500000000000000000000166187500000000000000000000000001152716000000000000000000000166175000000000000000000000000001264468400000000000000000000166162500000000000000000000000001252920900000000000000000000166150000000000000000000000000001178382100000000000000000000166137500000000000000000000000001275627500000000000000000000166125000000000000000000000000001200617900000000000000000000166112500000000000000000000000001202991800000000000000000000166100000000000000000000000000001234063900000000000000000000166087500000000000000000000000001302514400000000000000000000166075000000000000000000000000001295821100000000000000000000166062500000000000000000000000001143051500000000000000000000166050000000000000000000000000001262800600000000000000000000166037500000000000000000000000001260751300000000000000000000166025000000000000000000000000001267703000000000000000000000166012500000000000000000000000001281579900000000000000000000166000000000000000000000000000001185113300000000000000000000165987500000000000000000000000001229269300000000000000000000165975000000000000000000000000001321561300000000000000000000165962500000000000000000000000001244883400000000000000000000165950000000000000000000000000001272867600000000000000000000165937500000000000000000000000001244783800000000000000000000165925000000000000000000000000001224272900000000000000000000165912500000000000000000000000001189520200000000000000000000165900000000000000000000000000001200733400000000000000000000165887500000000000000000000000001151756500000000000000000000165875000000000000000000000000001222551000000000000000000000165862500000000000000000000000001272202700000000000000000000165850000000000000000000000000001402202800000000000000000000165837500000000000000000000000001329281000000000000000000000165825000000000000000000000000001300194900000000000000000000165812500000000000000000000000001275075200000000000000000000165800000000000000000000,
    1253240300000000000000000000167387500000000000000000000000001171918600000000000000000000167375000000000000000000000000001252319700000000000000000000167362500000000000000000000000001316130400000000000000000000167350000000000000000000000000001162217500000000000000000000167337500000000000000000000000001081524500000000000000000000167325000000000000000000000000001135588900000000000000000000167312500000000000000000000000001246375500000000000000000000167300000000000000000000000000001364580800000000000000000000167287500000000000000000000000001334026200000000000000000000167275000000000000000000000000001327969300000000000000000000167262500000000000000000000000001305608700000000000000000000167250000000000000000000000000001198445400000000000000000000167237500000000000000000000000001151267600000000000000000000167225000000000000000000000000001223444300000000000000000000167212500000000000000000000000001197205800000000000000000000167200000000000000000000000000001228299800000000000000000000167187500000000000000000000000001358617300000000000000000000167175000000000000000000000000001415031600000000000000000000167162500000000000000000000000001374750700000000000000000000167150000000000000000000000000001271325100000000000000000000167137500000000000000000000000001290125600000000000000000000167125000000000000000000000000001319177100000000000000000000167112500000000000000000000000001193759700000000000000000000167100000000000000000000000000001220539400000000000000000000167087500000000000000000000000001300949200000000000000000000167075000000000000000000000000001331710400000000000000000000167062500000000000000000000000001246374900000000000000000000167050000000000000000000000000001248419300000000000000000000167037500000000000000000000000001247436400000000000000000000167025000000000000000000000000001310790400000000000000000000167012500000000000000000000000001364799900000000000000000000167000000000000000000000000000001318196300000000000000000000166987500000000000000000000000001306112700000000000000000000166975000000000000000000000000001215126600000000000000000000166962500000000000000000000000001327381300000000000000000000166950000000000000000000000000001366398200000000000000000000166937500000000000000000000000001329216800000000000000000000166925000000000000000000000000001284705400000000000000000000166912500000000000000000000000001219125000000000000000000000166900000000000000000000000000001291211300000000000000000000166887500000000000000000000000001213101200000000000000000000166875000000000000000000000000001249808700000000000000000000166862500000000000000000000000001349808700000000000000000000166850000000000000000000000000001354261000000000000000000000166837500000000000000000000000001346012600000000000000000000166825000000000000000000000000001400899000000000000000000000166812500000000000000000000000001335565400000000000000000000166800000000000000000000000000001275507800000000000000000000166787500000000000000000000000001288351600000000000000000000166775000000000000000000000000001228209200000000000000000000166762500000000000000000000000001282023000000000000000000000166750000000000000000000000000001310671600000000000000000000166737500000000000000000000000001254092600000000000000000000166725000000000000000000000000001246978500000000000000000000166712500000000000000000000000001237145700000000000000000000166700000000000000000000000000001283523800000000000000000000166687500000000000000000000000001292041000000000000000000000166675000000000000000000000000001264113300000000000000000000166662500000000000000000000000001321512300000000000000000000166650000000000000000000000000001261105200000000000000000000166637500000000000000000000000001278433100000000000000000000166625000000000000000000000000001214777000000000000000000000166612500000000000000000000000001237803800000000000000000000166600000000000000000000,
    1147854800000000000000000000168187500000000000000000000000001257024400000000000000000000168175000000000000000000000000001407991600000000000000000000168162500000000000000000000000001338779600000000000000000000168150000000000000000000000000001207902100000000000000000000168137500000000000000000000000001196665900000000000000000000168125000000000000000000000000001195334300000000000000000000168112500000000000000000000000001311466300000000000000000000168100000000000000000000000000001336608200000000000000000000168087500000000000000000000000001292682200000000000000000000168075000000000000000000000000001203464700000000000000000000168062500000000000000000000000001240786700000000000000000000168050000000000000000000000000001186803300000000000000000000168037500000000000000000000000001193974500000000000000000000168025000000000000000000000000001181467500000000000000000000168012500000000000000000000000001258223400000000000000000000168000000000000000000000000000001326342700000000000000000000167987500000000000000000000000001225880000000000000000000000167975000000000000000000000000001190950100000000000000000000167962500000000000000000000000001219684900000000000000000000167950000000000000000000000000001246428800000000000000000000167937500000000000000000000000001227873700000000000000000000167925000000000000000000000000001269073400000000000000000000167912500000000000000000000000001346376600000000000000000000167900000000000000000000000000001243522700000000000000000000167887500000000000000000000000001250670000000000000000000000167875000000000000000000000000001274151200000000000000000000167862500000000000000000000000001270884800000000000000000000167850000000000000000000000000001208194200000000000000000000167837500000000000000000000000001183475900000000000000000000167825000000000000000000000000001252841000000000000000000000167812500000000000000000000000001229011300000000000000000000167800000000000000000000000000001307708500000000000000000000167787500000000000000000000000001245682500000000000000000000167775000000000000000000000000001204272100000000000000000000167762500000000000000000000000001302324400000000000000000000167750000000000000000000000000001262781100000000000000000000167737500000000000000000000000001204517200000000000000000000167725000000000000000000000000001272827800000000000000000000167712500000000000000000000000001234362100000000000000000000167700000000000000000000000000001203422000000000000000000000167687500000000000000000000000001270530800000000000000000000167675000000000000000000000000001309654900000000000000000000167662500000000000000000000000001228170800000000000000000000167650000000000000000000000000001320384600000000000000000000167637500000000000000000000000001237511000000000000000000000167625000000000000000000000000001108914400000000000000000000167612500000000000000000000000001216675500000000000000000000167600000000000000000000000000001252364300000000000000000000167587500000000000000000000000001313585400000000000000000000167575000000000000000000000000001332968600000000000000000000167562500000000000000000000000001204740000000000000000000000167550000000000000000000000000001195862300000000000000000000167537500000000000000000000000001271746900000000000000000000167525000000000000000000000000001299812400000000000000000000167512500000000000000000000000001300515500000000000000000000167500000000000000000000000000001246801400000000000000000000167487500000000000000000000000001206605100000000000000000000167475000000000000000000000000001301405500000000000000000000167462500000000000000000000000001337834600000000000000000000167450000000000000000000000000001315731100000000000000000000167437500000000000000000000000001278912700000000000000000000167425000000000000000000000000001310506900000000000000000000167412500000000000000000000000001393980800000000000000000000167400000000000000000000,
    1368165200000000000000000000168987500000000000000000000000001323041700000000000000000000168975000000000000000000000000001426263400000000000000000000168962500000000000000000000000001386766800000000000000000000168950000000000000000000000000001369146000000000000000000000168937500000000000000000000000001328185100000000000000000000168925000000000000000000000000001315220400000000000000000000168912500000000000000000000000001276259200000000000000000000168900000000000000000000000000001294173400000000000000000000168887500000000000000000000000001325698200000000000000000000168875000000000000000000000000001257001300000000000000000000168862500000000000000000000000001298001900000000000000000000168850000000000000000000000000001309873800000000000000000000168837500000000000000000000000001370075600000000000000000000168825000000000000000000000000001341661600000000000000000000168812500000000000000000000000001243197500000000000000000000168800000000000000000000000000001303682300000000000000000000168787500000000000000000000000001341592500000000000000000000168775000000000000000000000000001259785800000000000000000000168762500000000000000000000000001207726300000000000000000000168750000000000000000000000000001203719500000000000000000000168737500000000000000000000000001231956700000000000000000000168725000000000000000000000000001372719200000000000000000000168712500000000000000000000000001373054000000000000000000000168700000000000000000000000000001317965000000000000000000000168687500000000000000000000000001316674100000000000000000000168675000000000000000000000000001225220100000000000000000000168662500000000000000000000000001250701200000000000000000000168650000000000000000000000000001374646100000000000000000000168637500000000000000000000000001408071400000000000000000000168625000000000000000000000000001306563000000000000000000000168612500000000000000000000000001189823900000000000000000000168600000000000000000000000000001243421500000000000000000000168587500000000000000000000000001225462200000000000000000000168575000000000000000000000000001191689600000000000000000000168562500000000000000000000000001188872400000000000000000000168550000000000000000000000000001172478500000000000000000000168537500000000000000000000000001228171200000000000000000000168525000000000000000000000000001229616900000000000000000000168512500000000000000000000000001196561700000000000000000000168500000000000000000000000000001167513500000000000000000000168487500000000000000000000000001277405400000000000000000000168475000000000000000000000000001278739000000000000000000000168462500000000000000000000000001318222500000000000000000000168450000000000000000000000000001347180600000000000000000000168437500000000000000000000000001257705700000000000000000000168425000000000000000000000000001268177100000000000000000000168412500000000000000000000000001307633400000000000000000000168400000000000000000000000000001195034600000000000000000000168387500000000000000000000000001311457700000000000000000000168375000000000000000000000000001244354800000000000000000000168362500000000000000000000000001240906100000000000000000000168350000000000000000000000000001296291200000000000000000000168337500000000000000000000000001261497400000000000000000000168325000000000000000000000000001241808800000000000000000000168312500000000000000000000000001185640700000000000000000000168300000000000000000000000000001338874800000000000000000000168287500000000000000000000000001361128600000000000000000000168275000000000000000000000000001290422100000000000000000000168262500000000000000000000000001176833100000000000000000000168250000000000000000000000000001276997700000000000000000000168237500000000000000000000000001325817700000000000000000000168225000000000000000000000000001216724600000000000000000000168212500000000000000000000000001160267400000000000000000000168200000000000000000000,
    1237366400000000000000000000169787500000000000000000000000001243807700000000000000000000169775000000000000000000000000001297173800000000000000000000169762500000000000000000000000001306856800000000000000000000169750000000000000000000000000001235359100000000000000000000169737500000000000000000000000001262230800000000000000000000169725000000000000000000000000001245852200000000000000000000169712500000000000000000000000001307102000000000000000000000169700000000000000000000000000001344503000000000000000000000169687500000000000000000000000001354065500000000000000000000169675000000000000000000000000001267447200000000000000000000169662500000000000000000000000001356013600000000000000000000169650000000000000000000000000001374940300000000000000000000169637500000000000000000000000001269751600000000000000000000169625000000000000000000000000001310765900000000000000000000169612500000000000000000000000001387489300000000000000000000169600000000000000000000000000001280773900000000000000000000169587500000000000000000000000001317220200000000000000000000169575000000000000000000000000001318917600000000000000000000169562500000000000000000000000001385097600000000000000000000169550000000000000000000000000001402146000000000000000000000169537500000000000000000000000001330415900000000000000000000169525000000000000000000000000001294993200000000000000000000169512500000000000000000000000001271589800000000000000000000169500000000000000000000000000001300638900000000000000000000169487500000000000000000000000001319330900000000000000000000169475000000000000000000000000001209990000000000000000000000169462500000000000000000000000001193234900000000000000000000169450000000000000000000000000001261822600000000000000000000169437500000000000000000000000001331059200000000000000000000169425000000000000000000000000001318493400000000000000000000169412500000000000000000000000001275306500000000000000000000169400000000000000000000000000001296826800000000000000000000169387500000000000000000000000001189078700000000000000000000169375000000000000000000000000001199176500000000000000000000169362500000000000000000000000001255269400000000000000000000169350000000000000000000000000001301634000000000000000000000169337500000000000000000000000001340942600000000000000000000169325000000000000000000000000001429535500000000000000000000169312500000000000000000000000001391780900000000000000000000169300000000000000000000000000001370426300000000000000000000169287500000000000000000000000001395004400000000000000000000169275000000000000000000000000001368983800000000000000000000169262500000000000000000000000001373153300000000000000000000169250000000000000000000000000001373420500000000000000000000169237500000000000000000000000001482457100000000000000000000169225000000000000000000000000001334191400000000000000000000169212500000000000000000000000001284219300000000000000000000169200000000000000000000000000001247135000000000000000000000169187500000000000000000000000001262322400000000000000000000169175000000000000000000000000001403240800000000000000000000169162500000000000000000000000001328050700000000000000000000169150000000000000000000000000001361559700000000000000000000169137500000000000000000000000001330175100000000000000000000169125000000000000000000000000001211283200000000000000000000169112500000000000000000000000001300335100000000000000000000169100000000000000000000000000001277198500000000000000000000169087500000000000000000000000001304242000000000000000000000169075000000000000000000000000001336865200000000000000000000169062500000000000000000000000001290703000000000000000000000169050000000000000000000000000001219877800000000000000000000169037500000000000000000000000001178953300000000000000000000169025000000000000000000000000001278638300000000000000000000169012500000000000000000000000001411021900000000000000000000169000000000000000000000,
    1350028300000000000000000000170587500000000000000000000000001312694400000000000000000000170575000000000000000000000000001213462600000000000000000000170562500000000000000000000000001242584600000000000000000000170550000000000000000000000000001326392900000000000000000000170537500000000000000000000000001295067700000000000000000000170525000000000000000000000000001247832300000000000000000000170512500000000000000000000000001307031400000000000000000000170500000000000000000000000000001336334700000000000000000000170487500000000000000000000000001309993300000000000000000000170475000000000000000000000000001303962800000000000000000000170462500000000000000000000000001305026400000000000000000000170450000000000000000000000000001257112400000000000000000000170437500000000000000000000000001343993600000000000000000000170425000000000000000000000000001256172700000000000000000000170412500000000000000000000000001279854000000000000000000000170400000000000000000000000000001262107400000000000000000000170387500000000000000000000000001273847300000000000000000000170375000000000000000000000000001253239100000000000000000000170362500000000000000000000000001323462200000000000000000000170350000000000000000000000000001290673900000000000000000000170337500000000000000000000000001290192500000000000000000000170325000000000000000000000000001291487700000000000000000000170312500000000000000000000000001303400200000000000000000000170300000000000000000000000000001240136700000000000000000000170287500000000000000000000000001282675800000000000000000000170275000000000000000000000000001286082900000000000000000000170262500000000000000000000000001207441000000000000000000000170250000000000000000000000000001216412200000000000000000000170237500000000000000000000000001257772100000000000000000000170225000000000000000000000000001249279900000000000000000000170212500000000000000000000000001243361400000000000000000000170200000000000000000000000000001278187000000000000000000000170187500000000000000000000000001273449800000000000000000000170175000000000000000000000000001174982200000000000000000000170162500000000000000000000000001291872800000000000000000000170150000000000000000000000000001366556000000000000000000000170137500000000000000000000000001317792400000000000000000000170125000000000000000000000000001284642700000000000000000000170112500000000000000000000000001259594800000000000000000000170100000000000000000000000000001402903300000000000000000000170087500000000000000000000000001420305200000000000000000000170075000000000000000000000000001269134700000000000000000000170062500000000000000000000000001281579600000000000000000000170050000000000000000000000000001334205700000000000000000000170037500000000000000000000000001312466100000000000000000000170025000000000000000000000000001366593400000000000000000000170012500000000000000000000000001335081200000000000000000000170000000000000000000000000000001260892400000000000000000000169987500000000000000000000000001218650700000000000000000000169975000000000000000000000000001233876900000000000000000000169962500000000000000000000000001260008300000000000000000000169950000000000000000000000000001328788500000000000000000000169937500000000000000000000000001337228000000000000000000000169925000000000000000000000000001419293400000000000000000000169912500000000000000000000000001345970700000000000000000000169900000000000000000000000000001308630700000000000000000000169887500000000000000000000000001325763900000000000000000000169875000000000000000000000000001393910200000000000000000000169862500000000000000000000000001241728000000000000000000000169850000000000000000000000000001224792100000000000000000000169837500000000000000000000000001348427000000000000000000000169825000000000000000000000000001373638100000000000000000000169812500000000000000000000000001344193300000000000000000000169800000000000000000000,
    1242552600000000000000000000171387500000000000000000000000001303324100000000000000000000171375000000000000000000000000001260754200000000000000000000171362500000000000000000000000001332304200000000000000000000171350000000000000000000000000001286936100000000000000000000171337500000000000000000000000001334009300000000000000000000171325000000000000000000000000001264649800000000000000000000171312500000000000000000000000001366874400000000000000000000171300000000000000000000000000001425983900000000000000000000171287500000000000000000000000001384803400000000000000000000171275000000000000000000000000001376316000000000000000000000171262500000000000000000000000001238162300000000000000000000171250000000000000000000000000001254324300000000000000000000171237500000000000000000000000001275516400000000000000000000171225000000000000000000000000001277435000000000000000000000171212500000000000000000000000001334128500000000000000000000171200000000000000000000000000001264343000000000000000000000171187500000000000000000000000001267302600000000000000000000171175000000000000000000000000001356109400000000000000000000171162500000000000000000000000001375533600000000000000000000171150000000000000000000000000001346746900000000000000000000171137500000000000000000000000001292879500000000000000000000171125000000000000000000000000001244199500000000000000000000171112500000000000000000000000001226700300000000000000000000171100000000000000000000000000001210159000000000000000000000171087500000000000000000000000001284586700000000000000000000171075000000000000000000000000001355566600000000000000000000171062500000000000000000000000001304487300000000000000000000171050000000000000000000000000001403356700000000000000000000171037500000000000000000000000001378260400000000000000000000171025000000000000000000000000001313198200000000000000000000171012500000000000000000000000001319417800000000000000000000171000000000000000000000000000001272434700000000000000000000170987500000000000000000000000001318527700000000000000000000170975000000000000000000000000001343717800000000000000000000170962500000000000000000000000001310326800000000000000000000170950000000000000000000000000001269181800000000000000000000170937500000000000000000000000001178762100000000000000000000170925000000000000000000000000001260496600000000000000000000170912500000000000000000000000001312879100000000000000000000170900000000000000000000000000001220654000000000000000000000170887500000000000000000000000001223190200000000000000000000170875000000000000000000000000001360515800000000000000000000170862500000000000000000000000001307426000000000000000000000170850000000000000000000000000001161111700000000000000000000170837500000000000000000000000001238176400000000000000000000170825000000000000000000000000001322067000000000000000000000170812500000000000000000000000001371464700000000000000000000170800000000000000000000000000001208858600000000000000000000170787500000000000000000000000001229326900000000000000000000170775000000000000000000000000001306760400000000000000000000170762500000000000000000000000001255558300000000000000000000170750000000000000000000000000001207363300000000000000000000170737500000000000000000000000001240331400000000000000000000170725000000000000000000000000001218450300000000000000000000170712500000000000000000000000001286429900000000000000000000170700000000000000000000000000001255488600000000000000000000170687500000000000000000000000001241174800000000000000000000170675000000000000000000000000001233328300000000000000000000170662500000000000000000000000001322914300000000000000000000170650000000000000000000000000001322823700000000000000000000170637500000000000000000000000001272109900000000000000000000170625000000000000000000000000001292578600000000000000000000170612500000000000000000000000001448206400000000000000000000170600000000000000000000,
    1170449200000000000000000000172187500000000000000000000000001273060400000000000000000000172175000000000000000000000000001329469600000000000000000000172162500000000000000000000000001326463500000000000000000000172150000000000000000000000000001432827300000000000000000000172137500000000000000000000000001345392800000000000000000000172125000000000000000000000000001201659100000000000000000000172112500000000000000000000000001071534200000000000000000000172100000000000000000000000000001245304600000000000000000000172087500000000000000000000000001247953400000000000000000000172075000000000000000000000000001323969200000000000000000000172062500000000000000000000000001338683200000000000000000000172050000000000000000000000000001234225100000000000000000000172037500000000000000000000000001220939100000000000000000000172025000000000000000000000000001250800200000000000000000000172012500000000000000000000000001339680100000000000000000000172000000000000000000000000000001255585100000000000000000000171987500000000000000000000000001281667800000000000000000000171975000000000000000000000000001281355700000000000000000000171962500000000000000000000000001348937300000000000000000000171950000000000000000000000000001392743600000000000000000000171937500000000000000000000000001234868000000000000000000000171925000000000000000000000000001278922900000000000000000000171912500000000000000000000000001347594700000000000000000000171900000000000000000000000000001266707500000000000000000000171887500000000000000000000000001339509600000000000000000000171875000000000000000000000000001325365000000000000000000000171862500000000000000000000000001281874800000000000000000000171850000000000000000000000000001253292700000000000000000000171837500000000000000000000000001317351500000000000000000000171825000000000000000000000000001298983800000000000000000000171812500000000000000000000000001263134100000000000000000000171800000000000000000000000000001330452900000000000000000000171787500000000000000000000000001259728900000000000000000000171775000000000000000000000000001338303500000000000000000000171762500000000000000000000000001378039800000000000000000000171750000000000000000000000000001253856200000000000000000000171737500000000000000000000000001278627300000000000000000000171725000000000000000000000000001292096800000000000000000000171712500000000000000000000000001280279300000000000000000000171700000000000000000000000000001177514900000000000000000000171687500000000000000000000000001216166700000000000000000000171675000000000000000000000000001313174400000000000000000000171662500000000000000000000000001312187400000000000000000000171650000000000000000000000000001323574500000000000000000000171637500000000000000000000000001278168800000000000000000000171625000000000000000000000000001325973800000000000000000000171612500000000000000000000000001336437800000000000000000000171600000000000000000000000000001408285200000000000000000000171587500000000000000000000000001284492400000000000000000000171575000000000000000000000000001238966500000000000000000000171562500000000000000000000000001258644400000000000000000000171550000000000000000000000000001294850000000000000000000000171537500000000000000000000000001286082300000000000000000000171525000000000000000000000000001250892800000000000000000000171512500000000000000000000000001286555500000000000000000000171500000000000000000000000000001283575800000000000000000000171487500000000000000000000000001233156000000000000000000000171475000000000000000000000000001274868500000000000000000000171462500000000000000000000000001240479500000000000000000000171450000000000000000000000000001291062200000000000000000000171437500000000000000000000000001255404800000000000000000000171425000000000000000000000000001134348100000000000000000000171412500000000000000000000000001215354200000000000000000000171400000000000000000000,
    1245434900000000000000000000172987500000000000000000000000001186277900000000000000000000172975000000000000000000000000001251896700000000000000000000172962500000000000000000000000001349288400000000000000000000172950000000000000000000000000001378318200000000000000000000172937500000000000000000000000001311522700000000000000000000172925000000000000000000000000001298484600000000000000000000172912500000000000000000000000001339195900000000000000000000172900000000000000000000000000001370520400000000000000000000172887500000000000000000000000001282312500000000000000000000172875000000000000000000000000001267344400000000000000000000172862500000000000000000000000001305453500000000000000000000172850000000000000000000000000001379077600000000000000000000172837500000000000000000000000001325063600000000000000000000172825000000000000000000000000001352379100000000000000000000172812500000000000000000000000001394260900000000000000000000172800000000000000000000000000001384908800000000000000000000172787500000000000000000000000001362808200000000000000000000172775000000000000000000000000001241417800000000000000000000172762500000000000000000000000001257172000000000000000000000172750000000000000000000000000001296926900000000000000000000172737500000000000000000000000001308354700000000000000000000172725000000000000000000000000001311327500000000000000000000172712500000000000000000000000001296402000000000000000000000172700000000000000000000000000001323553000000000000000000000172687500000000000000000000000001246286600000000000000000000172675000000000000000000000000001298644600000000000000000000172662500000000000000000000000001280320800000000000000000000172650000000000000000000000000001274463000000000000000000000172637500000000000000000000000001323044000000000000000000000172625000000000000000000000000001333259600000000000000000000172612500000000000000000000000001314493700000000000000000000172600000000000000000000000000001262618100000000000000000000172587500000000000000000000000001316675100000000000000000000172575000000000000000000000000001382291800000000000000000000172562500000000000000000000000001368932400000000000000000000172550000000000000000000000000001325845100000000000000000000172537500000000000000000000000001343247000000000000000000000172525000000000000000000000000001327606900000000000000000000172512500000000000000000000000001300814500000000000000000000172500000000000000000000000000001251032600000000000000000000172487500000000000000000000000001333835500000000000000000000172475000000000000000000000000001347187900000000000000000000172462500000000000000000000000001261442400000000000000000000172450000000000000000000000000001169144100000000000000000000172437500000000000000000000000001213006600000000000000000000172425000000000000000000000000001223587600000000000000000000172412500000000000000000000000001236943200000000000000000000172400000000000000000000000000001258454500000000000000000000172387500000000000000000000000001243791900000000000000000000172375000000000000000000000000001217013800000000000000000000172362500000000000000000000000001283562900000000000000000000172350000000000000000000000000001331626900000000000000000000172337500000000000000000000000001268962900000000000000000000172325000000000000000000000000001311406200000000000000000000172312500000000000000000000000001293762800000000000000000000172300000000000000000000000000001259871400000000000000000000172287500000000000000000000000001292255200000000000000000000172275000000000000000000000000001274747500000000000000000000172262500000000000000000000000001321536700000000000000000000172250000000000000000000000000001282028300000000000000000000172237500000000000000000000000001258070200000000000000000000172225000000000000000000000000001231588000000000000000000000172212500000000000000000000000001162721900000000000000000000172200000000000000000000,
    1299673700000000000000000000173787500000000000000000000000001245860800000000000000000000173775000000000000000000000000001300248400000000000000000000173762500000000000000000000000001307805500000000000000000000173750000000000000000000000000001288928400000000000000000000173737500000000000000000000000001259055300000000000000000000173725000000000000000000000000001339723600000000000000000000173712500000000000000000000000001329381300000000000000000000173700000000000000000000000000001294304400000000000000000000173687500000000000000000000000001351923000000000000000000000173675000000000000000000000000001378521500000000000000000000173662500000000000000000000000001295678800000000000000000000173650000000000000000000000000001365858600000000000000000000173637500000000000000000000000001292983000000000000000000000173625000000000000000000000000001215491000000000000000000000173612500000000000000000000000001269763200000000000000000000173600000000000000000000000000001393845600000000000000000000173587500000000000000000000000001367018100000000000000000000173575000000000000000000000000001326897000000000000000000000173562500000000000000000000000001277184100000000000000000000173550000000000000000000000000001318300300000000000000000000173537500000000000000000000000001321051600000000000000000000173525000000000000000000000000001288553300000000000000000000173512500000000000000000000000001204172400000000000000000000173500000000000000000000000000001276337000000000000000000000173487500000000000000000000000001385225600000000000000000000173475000000000000000000000000001325716100000000000000000000173462500000000000000000000000001269840000000000000000000000173450000000000000000000000000001399622000000000000000000000173437500000000000000000000000001295396900000000000000000000173425000000000000000000000000001227590400000000000000000000173412500000000000000000000000001264633800000000000000000000173400000000000000000000000000001234340800000000000000000000173387500000000000000000000000001259689600000000000000000000173375000000000000000000000000001339230300000000000000000000173362500000000000000000000000001289079200000000000000000000173350000000000000000000000000001280972100000000000000000000173337500000000000000000000000001235749600000000000000000000173325000000000000000000000000001296787500000000000000000000173312500000000000000000000000001312460700000000000000000000173300000000000000000000000000001355243900000000000000000000173287500000000000000000000000001352984000000000000000000000173275000000000000000000000000001274126700000000000000000000173262500000000000000000000000001315554700000000000000000000173250000000000000000000000000001307083300000000000000000000173237500000000000000000000000001316808800000000000000000000173225000000000000000000000000001268951900000000000000000000173212500000000000000000000000001106193100000000000000000000173200000000000000000000000000001156448500000000000000000000173187500000000000000000000000001272016800000000000000000000173175000000000000000000000000001309000400000000000000000000173162500000000000000000000000001160789000000000000000000000173150000000000000000000000000001214841600000000000000000000173137500000000000000000000000001272599000000000000000000000173125000000000000000000000000001226793000000000000000000000173112500000000000000000000000001290656200000000000000000000173100000000000000000000000000001277424400000000000000000000173087500000000000000000000000001219528600000000000000000000173075000000000000000000000000001208451900000000000000000000173062500000000000000000000000001303784900000000000000000000173050000000000000000000000000001295437000000000000000000000173037500000000000000000000000001124045600000000000000000000173025000000000000000000000000001169893400000000000000000000173012500000000000000000000000001298250200000000000000000000173000000000000000000000,
    1223110700000000000000000000174587500000000000000000000000001248262900000000000000000000174575000000000000000000000000001373279700000000000000000000174562500000000000000000000000001398324600000000000000000000174550000000000000000000000000001335504000000000000000000000174537500000000000000000000000001366666700000000000000000000174525000000000000000000000000001406041100000000000000000000174512500000000000000000000000001417256100000000000000000000174500000000000000000000000000001368860300000000000000000000174487500000000000000000000000001340215500000000000000000000174475000000000000000000000000001359083800000000000000000000174462500000000000000000000000001317214200000000000000000000174450000000000000000000000000001251175200000000000000000000174437500000000000000000000000001390376200000000000000000000174425000000000000000000000000001360222600000000000000000000174412500000000000000000000000001333144000000000000000000000174400000000000000000000000000001321666700000000000000000000174387500000000000000000000000001341469100000000000000000000174375000000000000000000000000001325713400000000000000000000174362500000000000000000000000001301513800000000000000000000174350000000000000000000000000001393870400000000000000000000174337500000000000000000000000001290491000000000000000000000174325000000000000000000000000001278506100000000000000000000174312500000000000000000000000001416835400000000000000000000174300000000000000000000000000001347214500000000000000000000174287500000000000000000000000001166070700000000000000000000174275000000000000000000000000001185200300000000000000000000174262500000000000000000000000001307472500000000000000000000174250000000000000000000000000001257403600000000000000000000174237500000000000000000000000001318648500000000000000000000174225000000000000000000000000001283278200000000000000000000174212500000000000000000000000001212044900000000000000000000174200000000000000000000000000001289897600000000000000000000174187500000000000000000000000001236651100000000000000000000174175000000000000000000000000001294840400000000000000000000174162500000000000000000000000001246285100000000000000000000174150000000000000000000000000001265231500000000000000000000174137500000000000000000000000001275606300000000000000000000174125000000000000000000000000001300658200000000000000000000174112500000000000000000000000001337461400000000000000000000174100000000000000000000000000001365758900000000000000000000174087500000000000000000000000001297994600000000000000000000174075000000000000000000000000001244995200000000000000000000174062500000000000000000000000001298798800000000000000000000174050000000000000000000000000001383314100000000000000000000174037500000000000000000000000001392140600000000000000000000174025000000000000000000000000001335150700000000000000000000174012500000000000000000000000001349003800000000000000000000174000000000000000000000000000001363891400000000000000000000173987500000000000000000000000001387899300000000000000000000173975000000000000000000000000001315289100000000000000000000173962500000000000000000000000001295503700000000000000000000173950000000000000000000000000001275292200000000000000000000173937500000000000000000000000001220931600000000000000000000173925000000000000000000000000001450480700000000000000000000173912500000000000000000000000001431198900000000000000000000173900000000000000000000000000001334183900000000000000000000173887500000000000000000000000001288436400000000000000000000173875000000000000000000000000001331490500000000000000000000173862500000000000000000000000001398650100000000000000000000173850000000000000000000000000001412770300000000000000000000173837500000000000000000000000001293585500000000000000000000173825000000000000000000000000001240233100000000000000000000173812500000000000000000000000001354358500000000000000000000173800000000000000000000,
    1272040500000000000000000000175387500000000000000000000000001402477600000000000000000000175375000000000000000000000000001372275400000000000000000000175362500000000000000000000000001263606600000000000000000000175350000000000000000000000000001140044400000000000000000000175337500000000000000000000000001209963700000000000000000000175325000000000000000000000000001273822900000000000000000000175312500000000000000000000000001257953400000000000000000000175300000000000000000000000000001389591300000000000000000000175287500000000000000000000000001313155800000000000000000000175275000000000000000000000000001287618100000000000000000000175262500000000000000000000000001307350500000000000000000000175250000000000000000000000000001317931600000000000000000000175237500000000000000000000000001342487100000000000000000000175225000000000000000000000000001309066300000000000000000000175212500000000000000000000000001226193100000000000000000000175200000000000000000000000000001193826900000000000000000000175187500000000000000000000000001202269100000000000000000000175175000000000000000000000000001347484200000000000000000000175162500000000000000000000000001254199600000000000000000000175150000000000000000000000000001251700800000000000000000000175137500000000000000000000000001333881900000000000000000000175125000000000000000000000000001388034200000000000000000000175112500000000000000000000000001398992700000000000000000000175100000000000000000000000000001370798500000000000000000000175087500000000000000000000000001253624000000000000000000000175075000000000000000000000000001192823800000000000000000000175062500000000000000000000000001395276700000000000000000000175050000000000000000000000000001421927300000000000000000000175037500000000000000000000000001320794300000000000000000000175025000000000000000000000000001298440400000000000000000000175012500000000000000000000000001313084800000000000000000000175000000000000000000000000000001364265400000000000000000000174987500000000000000000000000001331832900000000000000000000174975000000000000000000000000001345407900000000000000000000174962500000000000000000000000001364105400000000000000000000174950000000000000000000000000001376706300000000000000000000174937500000000000000000000000001315067800000000000000000000174925000000000000000000000000001273570100000000000000000000174912500000000000000000000000001349584200000000000000000000174900000000000000000000000000001407363700000000000000000000174887500000000000000000000000001330134400000000000000000000174875000000000000000000000000001283126200000000000000000000174862500000000000000000000000001361324200000000000000000000174850000000000000000000000000001364387100000000000000000000174837500000000000000000000000001361889400000000000000000000174825000000000000000000000000001137666400000000000000000000174812500000000000000000000000001324708000000000000000000000174800000000000000000000000000001410180800000000000000000000174787500000000000000000000000001418949300000000000000000000174775000000000000000000000000001368867000000000000000000000174762500000000000000000000000001342737300000000000000000000174750000000000000000000000000001295913400000000000000000000174737500000000000000000000000001314114300000000000000000000174725000000000000000000000000001308274800000000000000000000174712500000000000000000000000001274676900000000000000000000174700000000000000000000000000001278716600000000000000000000174687500000000000000000000000001320047100000000000000000000174675000000000000000000000000001317971800000000000000000000174662500000000000000000000000001273097300000000000000000000174650000000000000000000000000001367332600000000000000000000174637500000000000000000000000001405342300000000000000000000174625000000000000000000000000001305644300000000000000000000174612500000000000000000000000001260346500000000000000000000174600000000000000000000,
    1267157500000000000000000000176187500000000000000000000000001472556500000000000000000000176175000000000000000000000000001401434400000000000000000000176162500000000000000000000000001364592200000000000000000000176150000000000000000000000000001294774000000000000000000000176137500000000000000000000000001226388100000000000000000000176125000000000000000000000000001269919700000000000000000000176112500000000000000000000000001192192800000000000000000000176100000000000000000000000000001334424400000000000000000000176087500000000000000000000000001317654400000000000000000000176075000000000000000000000000001293156300000000000000000000176062500000000000000000000000001459645300000000000000000000176050000000000000000000000000001274075400000000000000000000176037500000000000000000000000001365355800000000000000000000176025000000000000000000000000001460939200000000000000000000176012500000000000000000000000001256367700000000000000000000176000000000000000000000000000001270095200000000000000000000175987500000000000000000000000001356413200000000000000000000175975000000000000000000000000001309102500000000000000000000175962500000000000000000000000001286684500000000000000000000175950000000000000000000000000001282147600000000000000000000175937500000000000000000000000001299684300000000000000000000175925000000000000000000000000001349934300000000000000000000175912500000000000000000000000001314928200000000000000000000175900000000000000000000000000001234222600000000000000000000175887500000000000000000000000001284808400000000000000000000175875000000000000000000000000001345489000000000000000000000175862500000000000000000000000001428999300000000000000000000175850000000000000000000000000001357804200000000000000000000175837500000000000000000000000001358937200000000000000000000175825000000000000000000000000001379571100000000000000000000175812500000000000000000000000001301238400000000000000000000175800000000000000000000000000001184179700000000000000000000175787500000000000000000000000001299591800000000000000000000175775000000000000000000000000001466058700000000000000000000175762500000000000000000000000001343066900000000000000000000175750000000000000000000000000001410368000000000000000000000175737500000000000000000000000001381368600000000000000000000175725000000000000000000000000001351149000000000000000000000175712500000000000000000000000001287760500000000000000000000175700000000000000000000000000001224235300000000000000000000175687500000000000000000000000001328545000000000000000000000175675000000000000000000000000001245377100000000000000000000175662500000000000000000000000001217205000000000000000000000175650000000000000000000000000001306024300000000000000000000175637500000000000000000000000001290987800000000000000000000175625000000000000000000000000001305667800000000000000000000175612500000000000000000000000001319061100000000000000000000175600000000000000000000000000001326460800000000000000000000175587500000000000000000000000001351786100000000000000000000175575000000000000000000000000001368528200000000000000000000175562500000000000000000000000001269890600000000000000000000175550000000000000000000000000001371045400000000000000000000175537500000000000000000000000001457670100000000000000000000175525000000000000000000000000001354433000000000000000000000175512500000000000000000000000001365398500000000000000000000175500000000000000000000000000001378142500000000000000000000175487500000000000000000000000001297757200000000000000000000175475000000000000000000000000001227926200000000000000000000175462500000000000000000000000001285332000000000000000000000175450000000000000000000000000001240354300000000000000000000175437500000000000000000000000001331638100000000000000000000175425000000000000000000000000001480500700000000000000000000175412500000000000000000000000001311332300000000000000000000175400000000000000000000,
    1361030800000000000000000000176987500000000000000000000000001257406200000000000000000000176975000000000000000000000000001218180800000000000000000000176962500000000000000000000000001226267700000000000000000000176950000000000000000000000000001316443000000000000000000000176937500000000000000000000000001358366500000000000000000000176925000000000000000000000000001361001200000000000000000000176912500000000000000000000000001366543800000000000000000000176900000000000000000000000000001443675400000000000000000000176887500000000000000000000000001461145000000000000000000000176875000000000000000000000000001390728400000000000000000000176862500000000000000000000000001374193400000000000000000000176850000000000000000000000000001314049000000000000000000000176837500000000000000000000000001324040000000000000000000000176825000000000000000000000000001192940400000000000000000000176812500000000000000000000000001240213300000000000000000000176800000000000000000000000000001292634700000000000000000000176787500000000000000000000000001341886700000000000000000000176775000000000000000000000000001280442600000000000000000000176762500000000000000000000000001346036800000000000000000000176750000000000000000000000000001292745700000000000000000000176737500000000000000000000000001360699800000000000000000000176725000000000000000000000000001328190600000000000000000000176712500000000000000000000000001327870900000000000000000000176700000000000000000000000000001376174600000000000000000000176687500000000000000000000000001542892800000000000000000000176675000000000000000000000000001450952800000000000000000000176662500000000000000000000000001456011200000000000000000000176650000000000000000000000000001507792500000000000000000000176637500000000000000000000000001386957900000000000000000000176625000000000000000000000000001346086800000000000000000000176612500000000000000000000000001351551700000000000000000000176600000000000000000000000000001296541800000000000000000000176587500000000000000000000000001331899200000000000000000000176575000000000000000000000000001411212700000000000000000000176562500000000000000000000000001321305100000000000000000000176550000000000000000000000000001306201700000000000000000000176537500000000000000000000000001427620000000000000000000000176525000000000000000000000000001449578400000000000000000000176512500000000000000000000000001407145300000000000000000000176500000000000000000000000000001275590100000000000000000000176487500000000000000000000000001307552000000000000000000000176475000000000000000000000000001311489100000000000000000000176462500000000000000000000000001422467000000000000000000000176450000000000000000000000000001324680800000000000000000000176437500000000000000000000000001135304600000000000000000000176425000000000000000000000000001245074200000000000000000000176412500000000000000000000000001214639700000000000000000000176400000000000000000000000000001191537000000000000000000000176387500000000000000000000000001366984500000000000000000000176375000000000000000000000000001298038400000000000000000000176362500000000000000000000000001264830800000000000000000000176350000000000000000000000000001326999500000000000000000000176337500000000000000000000000001380603000000000000000000000176325000000000000000000000000001276996100000000000000000000176312500000000000000000000000001403667700000000000000000000176300000000000000000000000000001396506200000000000000000000176287500000000000000000000000001312059900000000000000000000176275000000000000000000000000001251161300000000000000000000176262500000000000000000000000001277626100000000000000000000176250000000000000000000000000001286219300000000000000000000176237500000000000000000000000001380582600000000000000000000176225000000000000000000000000001295979300000000000000000000176212500000000000000000000000001166164300000000000000000000176200000000000000000000,
    1264312700000000000000000000177787500000000000000000000000001361097500000000000000000000177775000000000000000000000000001432928200000000000000000000177762500000000000000000000000001402551000000000000000000000177750000000000000000000000000001373992700000000000000000000177737500000000000000000000000001327482500000000000000000000177725000000000000000000000000001232139000000000000000000000177712500000000000000000000000001283277200000000000000000000177700000000000000000000000000001340087300000000000000000000177687500000000000000000000000001290335100000000000000000000177675000000000000000000000000001333930400000000000000000000177662500000000000000000000000001360381400000000000000000000177650000000000000000000000000001311352100000000000000000000177637500000000000000000000000001284691300000000000000000000177625000000000000000000000000001312600300000000000000000000177612500000000000000000000000001371589000000000000000000000177600000000000000000000000000001354698500000000000000000000177587500000000000000000000000001406076500000000000000000000177575000000000000000000000000001357042900000000000000000000177562500000000000000000000000001282363200000000000000000000177550000000000000000000000000001306276000000000000000000000177537500000000000000000000000001243299700000000000000000000177525000000000000000000000000001329585600000000000000000000177512500000000000000000000000001269754300000000000000000000177500000000000000000000000000001318170200000000000000000000177487500000000000000000000000001420574700000000000000000000177475000000000000000000000000001287300000000000000000000000177462500000000000000000000000001276137600000000000000000000177450000000000000000000000000001330549900000000000000000000177437500000000000000000000000001342559300000000000000000000177425000000000000000000000000001410808800000000000000000000177412500000000000000000000000001391011900000000000000000000177400000000000000000000000000001316357400000000000000000000177387500000000000000000000000001279418700000000000000000000177375000000000000000000000000001285105100000000000000000000177362500000000000000000000000001418276700000000000000000000177350000000000000000000000000001332594100000000000000000000177337500000000000000000000000001322694900000000000000000000177325000000000000000000000000001368194200000000000000000000177312500000000000000000000000001394313200000000000000000000177300000000000000000000000000001244553500000000000000000000177287500000000000000000000000001346265600000000000000000000177275000000000000000000000000001364568200000000000000000000177262500000000000000000000000001276898100000000000000000000177250000000000000000000000000001296031500000000000000000000177237500000000000000000000000001318432400000000000000000000177225000000000000000000000000001435069100000000000000000000177212500000000000000000000000001398284700000000000000000000177200000000000000000000000000001305082600000000000000000000177187500000000000000000000000001355034700000000000000000000177175000000000000000000000000001332625800000000000000000000177162500000000000000000000000001424992300000000000000000000177150000000000000000000000000001417333800000000000000000000177137500000000000000000000000001388399000000000000000000000177125000000000000000000000000001409131100000000000000000000177112500000000000000000000000001298668200000000000000000000177100000000000000000000000000001334693400000000000000000000177087500000000000000000000000001314946100000000000000000000177075000000000000000000000000001270143700000000000000000000177062500000000000000000000000001360394500000000000000000000177050000000000000000000000000001292261800000000000000000000177037500000000000000000000000001161121700000000000000000000177025000000000000000000000000001355167600000000000000000000177012500000000000000000000000001415054800000000000000000000177000000000000000000000,
    1426907500000000000000000000178587500000000000000000000000001378551100000000000000000000178575000000000000000000000000001264896500000000000000000000178562500000000000000000000000001367848200000000000000000000178550000000000000000000000000001345289100000000000000000000178537500000000000000000000000001215750900000000000000000000178525000000000000000000000000001360002700000000000000000000178512500000000000000000000000001333942700000000000000000000178500000000000000000000000000001245653600000000000000000000178487500000000000000000000000001256463600000000000000000000178475000000000000000000000000001392827300000000000000000000178462500000000000000000000000001319933400000000000000000000178450000000000000000000000000001326106400000000000000000000178437500000000000000000000000001368640900000000000000000000178425000000000000000000000000001351963400000000000000000000178412500000000000000000000000001430810700000000000000000000178400000000000000000000000000001325579800000000000000000000178387500000000000000000000000001344427300000000000000000000178375000000000000000000000000001378488500000000000000000000178362500000000000000000000000001387604300000000000000000000178350000000000000000000000000001331216500000000000000000000178337500000000000000000000000001274122200000000000000000000178325000000000000000000000000001337895900000000000000000000178312500000000000000000000000001402871200000000000000000000178300000000000000000000000000001412254700000000000000000000178287500000000000000000000000001391172900000000000000000000178275000000000000000000000000001308561700000000000000000000178262500000000000000000000000001407691200000000000000000000178250000000000000000000000000001401924100000000000000000000178237500000000000000000000000001227868100000000000000000000178225000000000000000000000000001295057700000000000000000000178212500000000000000000000000001376654300000000000000000000178200000000000000000000000000001325497000000000000000000000178187500000000000000000000000001179109900000000000000000000178175000000000000000000000000001196105000000000000000000000178162500000000000000000000000001349949100000000000000000000178150000000000000000000000000001341497400000000000000000000178137500000000000000000000000001313259200000000000000000000178125000000000000000000000000001264489600000000000000000000178112500000000000000000000000001301130300000000000000000000178100000000000000000000000000001342759100000000000000000000178087500000000000000000000000001419599500000000000000000000178075000000000000000000000000001475787300000000000000000000178062500000000000000000000000001382258200000000000000000000178050000000000000000000000000001353395200000000000000000000178037500000000000000000000000001359119700000000000000000000178025000000000000000000000000001252792200000000000000000000178012500000000000000000000000001318831700000000000000000000178000000000000000000000000000001324512500000000000000000000177987500000000000000000000000001299422400000000000000000000177975000000000000000000000000001350101400000000000000000000177962500000000000000000000000001355600500000000000000000000177950000000000000000000000000001317993400000000000000000000177937500000000000000000000000001206725900000000000000000000177925000000000000000000000000001315298700000000000000000000177912500000000000000000000000001352357300000000000000000000177900000000000000000000000000001372852000000000000000000000177887500000000000000000000000001461328500000000000000000000177875000000000000000000000000001436428500000000000000000000177862500000000000000000000000001293738400000000000000000000177850000000000000000000000000001305866100000000000000000000177837500000000000000000000000001363646100000000000000000000177825000000000000000000000000001323694500000000000000000000177812500000000000000000000000001300922300000000000000000000177800000000000000000000,
    1308483900000000000000000000179387500000000000000000000000001387229300000000000000000000179375000000000000000000000000001317947600000000000000000000179362500000000000000000000000001289107300000000000000000000179350000000000000000000000000001401444800000000000000000000179337500000000000000000000000001318777400000000000000000000179325000000000000000000000000001282390200000000000000000000179312500000000000000000000000001291858100000000000000000000179300000000000000000000000000001429465900000000000000000000179287500000000000000000000000001498760400000000000000000000179275000000000000000000000000001356456700000000000000000000179262500000000000000000000000001375400800000000000000000000179250000000000000000000000000001487483700000000000000000000179237500000000000000000000000001430977500000000000000000000179225000000000000000000000000001413527700000000000000000000179212500000000000000000000000001326291500000000000000000000179200000000000000000000000000001314838600000000000000000000179187500000000000000000000000001333668800000000000000000000179175000000000000000000000000001253893500000000000000000000179162500000000000000000000000001246402700000000000000000000179150000000000000000000000000001269394600000000000000000000179137500000000000000000000000001315813300000000000000000000179125000000000000000000000000001289055400000000000000000000179112500000000000000000000000001424937200000000000000000000179100000000000000000000000000001456845100000000000000000000179087500000000000000000000000001472796600000000000000000000179075000000000000000000000000001360136300000000000000000000179062500000000000000000000000001356211400000000000000000000179050000000000000000000000000001328595200000000000000000000179037500000000000000000000000001377281900000000000000000000179025000000000000000000000000001291191100000000000000000000179012500000000000000000000000001294934900000000000000000000179000000000000000000000000000001364968700000000000000000000178987500000000000000000000000001374624400000000000000000000178975000000000000000000000000001414843900000000000000000000178962500000000000000000000000001398347600000000000000000000178950000000000000000000000000001253166000000000000000000000178937500000000000000000000000001263569900000000000000000000178925000000000000000000000000001364641700000000000000000000178912500000000000000000000000001431018800000000000000000000178900000000000000000000000000001520060900000000000000000000178887500000000000000000000000001412326800000000000000000000178875000000000000000000000000001362726800000000000000000000178862500000000000000000000000001436382500000000000000000000178850000000000000000000000000001394105100000000000000000000178837500000000000000000000000001330374300000000000000000000178825000000000000000000000000001202628100000000000000000000178812500000000000000000000000001363684900000000000000000000178800000000000000000000000000001423369000000000000000000000178787500000000000000000000000001377355000000000000000000000178775000000000000000000000000001397654600000000000000000000178762500000000000000000000000001410123100000000000000000000178750000000000000000000000000001344535800000000000000000000178737500000000000000000000000001298597500000000000000000000178725000000000000000000000000001437293800000000000000000000178712500000000000000000000000001388781300000000000000000000178700000000000000000000000000001383144700000000000000000000178687500000000000000000000000001319919000000000000000000000178675000000000000000000000000001363074500000000000000000000178662500000000000000000000000001254593500000000000000000000178650000000000000000000000000001256983200000000000000000000178637500000000000000000000000001250566600000000000000000000178625000000000000000000000000001307562200000000000000000000178612500000000000000000000000001449874200000000000000000000178600000000000000000000,
    1294460200000000000000000000180187500000000000000000000000001337608500000000000000000000180175000000000000000000000000001345413500000000000000000000180162500000000000000000000000001352037300000000000000000000180150000000000000000000000000001318069600000000000000000000180137500000000000000000000000001415946700000000000000000000180125000000000000000000000000001429967700000000000000000000180112500000000000000000000000001263214800000000000000000000180100000000000000000000000000001337278700000000000000000000180087500000000000000000000000001439102200000000000000000000180075000000000000000000000000001391952100000000000000000000180062500000000000000000000000001283719500000000000000000000180050000000000000000000000000001267153800000000000000000000180037500000000000000000000000001283968900000000000000000000180025000000000000000000000000001402933500000000000000000000180012500000000000000000000000001406640200000000000000000000180000000000000000000000000000001292832300000000000000000000179987500000000000000000000000001260171800000000000000000000179975000000000000000000000000001306897300000000000000000000179962500000000000000000000000001368363900000000000000000000179950000000000000000000000000001363619900000000000000000000179937500000000000000000000000001465086300000000000000000000179925000000000000000000000000001391022700000000000000000000179912500000000000000000000000001393189400000000000000000000179900000000000000000000000000001324998500000000000000000000179887500000000000000000000000001274121500000000000000000000179875000000000000000000000000001379220900000000000000000000179862500000000000000000000000001409067600000000000000000000179850000000000000000000000000001465963600000000000000000000179837500000000000000000000000001427779500000000000000000000179825000000000000000000000000001266370700000000000000000000179812500000000000000000000000001316853200000000000000000000179800000000000000000000000000001313630800000000000000000000179787500000000000000000000000001309993400000000000000000000179775000000000000000000000000001356373100000000000000000000179762500000000000000000000000001334882600000000000000000000179750000000000000000000000000001284850800000000000000000000179737500000000000000000000000001289162400000000000000000000179725000000000000000000000000001322521600000000000000000000179712500000000000000000000000001327892000000000000000000000179700000000000000000000000000001268802900000000000000000000179687500000000000000000000000001295778800000000000000000000179675000000000000000000000000001353235200000000000000000000179662500000000000000000000000001316682700000000000000000000179650000000000000000000000000001389346200000000000000000000179637500000000000000000000000001385857500000000000000000000179625000000000000000000000000001298281700000000000000000000179612500000000000000000000000001342343900000000000000000000179600000000000000000000000000001237950000000000000000000000179587500000000000000000000000001340056300000000000000000000179575000000000000000000000000001371077800000000000000000000179562500000000000000000000000001325539500000000000000000000179550000000000000000000000000001414795900000000000000000000179537500000000000000000000000001457109200000000000000000000179525000000000000000000000000001431602800000000000000000000179512500000000000000000000000001401688800000000000000000000179500000000000000000000000000001407765500000000000000000000179487500000000000000000000000001318431100000000000000000000179475000000000000000000000000001283889600000000000000000000179462500000000000000000000000001368431700000000000000000000179450000000000000000000000000001442702200000000000000000000179437500000000000000000000000001393332100000000000000000000179425000000000000000000000000001418176000000000000000000000179412500000000000000000000000001369974000000000000000000000179400000000000000000000,
    1331566700000000000000000000180987500000000000000000000000001384061900000000000000000000180975000000000000000000000000001365649700000000000000000000180962500000000000000000000000001376518000000000000000000000180950000000000000000000000000001457444200000000000000000000180937500000000000000000000000001373082800000000000000000000180925000000000000000000000000001362615100000000000000000000180912500000000000000000000000001461062400000000000000000000180900000000000000000000000000001397337800000000000000000000180887500000000000000000000000001304894700000000000000000000180875000000000000000000000000001348987100000000000000000000180862500000000000000000000000001418064300000000000000000000180850000000000000000000000000001311618400000000000000000000180837500000000000000000000000001288754700000000000000000000180825000000000000000000000000001296899100000000000000000000180812500000000000000000000000001315272500000000000000000000180800000000000000000000000000001339825100000000000000000000180787500000000000000000000000001364467300000000000000000000180775000000000000000000000000001246815900000000000000000000180762500000000000000000000000001352207300000000000000000000180750000000000000000000000000001394955100000000000000000000180737500000000000000000000000001430212300000000000000000000180725000000000000000000000000001329310800000000000000000000180712500000000000000000000000001359354500000000000000000000180700000000000000000000000000001378662800000000000000000000180687500000000000000000000000001469524800000000000000000000180675000000000000000000000000001294171400000000000000000000180662500000000000000000000000001291666500000000000000000000180650000000000000000000000000001195088200000000000000000000180637500000000000000000000000001240288100000000000000000000180625000000000000000000000000001308769400000000000000000000180612500000000000000000000000001380654500000000000000000000180600000000000000000000000000001418787900000000000000000000180587500000000000000000000000001476957800000000000000000000180575000000000000000000000000001399892600000000000000000000180562500000000000000000000000001257174700000000000000000000180550000000000000000000000000001207563200000000000000000000180537500000000000000000000000001270440200000000000000000000180525000000000000000000000000001340283000000000000000000000180512500000000000000000000000001370758900000000000000000000180500000000000000000000000000001435927800000000000000000000180487500000000000000000000000001403574800000000000000000000180475000000000000000000000000001390202900000000000000000000180462500000000000000000000000001326442800000000000000000000180450000000000000000000000000001467233700000000000000000000180437500000000000000000000000001422187300000000000000000000180425000000000000000000000000001405215700000000000000000000180412500000000000000000000000001434108900000000000000000000180400000000000000000000000000001409915600000000000000000000180387500000000000000000000000001447065000000000000000000000180375000000000000000000000000001367767000000000000000000000180362500000000000000000000000001234185200000000000000000000180350000000000000000000000000001348977000000000000000000000180337500000000000000000000000001423941300000000000000000000180325000000000000000000000000001409443200000000000000000000180312500000000000000000000000001434995100000000000000000000180300000000000000000000000000001490919700000000000000000000180287500000000000000000000000001494063500000000000000000000180275000000000000000000000000001426957100000000000000000000180262500000000000000000000000001322138800000000000000000000180250000000000000000000000000001262971700000000000000000000180237500000000000000000000000001250894200000000000000000000180225000000000000000000000000001345546000000000000000000000180212500000000000000000000000001237284300000000000000000000180200000000000000000000,
    1485919500000000000000000000181787500000000000000000000000001353892700000000000000000000181775000000000000000000000000001392406000000000000000000000181762500000000000000000000000001416212200000000000000000000181750000000000000000000000000001393388400000000000000000000181737500000000000000000000000001282824700000000000000000000181725000000000000000000000000001354027300000000000000000000181712500000000000000000000000001406904700000000000000000000181700000000000000000000000000001490446700000000000000000000181687500000000000000000000000001362819000000000000000000000181675000000000000000000000000001343433800000000000000000000181662500000000000000000000000001426396200000000000000000000181650000000000000000000000000001316682300000000000000000000181637500000000000000000000000001294178200000000000000000000181625000000000000000000000000001384683900000000000000000000181612500000000000000000000000001441366400000000000000000000181600000000000000000000000000001537189300000000000000000000181587500000000000000000000000001523483800000000000000000000181575000000000000000000000000001342215600000000000000000000181562500000000000000000000000001313288600000000000000000000181550000000000000000000000000001202663400000000000000000000181537500000000000000000000000001232232400000000000000000000181525000000000000000000000000001203024000000000000000000000181512500000000000000000000000001335111000000000000000000000181500000000000000000000000000001440103300000000000000000000181487500000000000000000000000001396688800000000000000000000181475000000000000000000000000001304256100000000000000000000181462500000000000000000000000001400717200000000000000000000181450000000000000000000000000001405804000000000000000000000181437500000000000000000000000001435898700000000000000000000181425000000000000000000000000001360196700000000000000000000181412500000000000000000000000001312043700000000000000000000181400000000000000000000000000001404288800000000000000000000181387500000000000000000000000001424281300000000000000000000181375000000000000000000000000001474686600000000000000000000181362500000000000000000000000001424252600000000000000000000181350000000000000000000000000001439406300000000000000000000181337500000000000000000000000001451160800000000000000000000181325000000000000000000000000001339183400000000000000000000181312500000000000000000000000001389205700000000000000000000181300000000000000000000000000001457367100000000000000000000181287500000000000000000000000001310671200000000000000000000181275000000000000000000000000001274400200000000000000000000181262500000000000000000000000001397285000000000000000000000181250000000000000000000000000001427146000000000000000000000181237500000000000000000000000001387566800000000000000000000181225000000000000000000000000001271110600000000000000000000181212500000000000000000000000001341846600000000000000000000181200000000000000000000000000001427980300000000000000000000181187500000000000000000000000001403209600000000000000000000181175000000000000000000000000001442007300000000000000000000181162500000000000000000000000001425381300000000000000000000181150000000000000000000000000001433519700000000000000000000181137500000000000000000000000001444642000000000000000000000181125000000000000000000000000001304532100000000000000000000181112500000000000000000000000001459783200000000000000000000181100000000000000000000000000001535897200000000000000000000181087500000000000000000000000001493527200000000000000000000181075000000000000000000000000001428070200000000000000000000181062500000000000000000000000001252711600000000000000000000181050000000000000000000000000001291198400000000000000000000181037500000000000000000000000001382992000000000000000000000181025000000000000000000000000001358052200000000000000000000181012500000000000000000000000001305729400000000000000000000181000000000000000000000,
    1374277300000000000000000000182587500000000000000000000000001312692400000000000000000000182575000000000000000000000000001390563400000000000000000000182562500000000000000000000000001412361500000000000000000000182550000000000000000000000000001441338600000000000000000000182537500000000000000000000000001426017300000000000000000000182525000000000000000000000000001283626600000000000000000000182512500000000000000000000000001351708700000000000000000000182500000000000000000000000000001353588500000000000000000000182487500000000000000000000000001352583700000000000000000000182475000000000000000000000000001383587300000000000000000000182462500000000000000000000000001313977200000000000000000000182450000000000000000000000000001325515300000000000000000000182437500000000000000000000000001406493300000000000000000000182425000000000000000000000000001386111000000000000000000000182412500000000000000000000000001300207000000000000000000000182400000000000000000000000000001325851000000000000000000000182387500000000000000000000000001333137700000000000000000000182375000000000000000000000000001230348800000000000000000000182362500000000000000000000000001264034900000000000000000000182350000000000000000000000000001257755100000000000000000000182337500000000000000000000000001323018100000000000000000000182325000000000000000000000000001437866300000000000000000000182312500000000000000000000000001396145400000000000000000000182300000000000000000000000000001411833300000000000000000000182287500000000000000000000000001442415600000000000000000000182275000000000000000000000000001353047700000000000000000000182262500000000000000000000000001241427200000000000000000000182250000000000000000000000000001296703000000000000000000000182237500000000000000000000000001348366000000000000000000000182225000000000000000000000000001338487200000000000000000000182212500000000000000000000000001322211800000000000000000000182200000000000000000000000000001469897100000000000000000000182187500000000000000000000000001523785600000000000000000000182175000000000000000000000000001442125900000000000000000000182162500000000000000000000000001340151000000000000000000000182150000000000000000000000000001316436700000000000000000000182137500000000000000000000000001286833900000000000000000000182125000000000000000000000000001263741500000000000000000000182112500000000000000000000000001407860900000000000000000000182100000000000000000000000000001381867800000000000000000000182087500000000000000000000000001441265000000000000000000000182075000000000000000000000000001441177500000000000000000000182062500000000000000000000000001306653500000000000000000000182050000000000000000000000000001287063100000000000000000000182037500000000000000000000000001392250200000000000000000000182025000000000000000000000000001425785600000000000000000000182012500000000000000000000000001365472600000000000000000000182000000000000000000000000000001359983400000000000000000000181987500000000000000000000000001372850600000000000000000000181975000000000000000000000000001358863100000000000000000000181962500000000000000000000000001372607500000000000000000000181950000000000000000000000000001368442800000000000000000000181937500000000000000000000000001227243300000000000000000000181925000000000000000000000000001294093000000000000000000000181912500000000000000000000000001365493600000000000000000000181900000000000000000000000000001298582100000000000000000000181887500000000000000000000000001269729300000000000000000000181875000000000000000000000000001308234400000000000000000000181862500000000000000000000000001299396700000000000000000000181850000000000000000000000000001337341000000000000000000000181837500000000000000000000000001330318600000000000000000000181825000000000000000000000000001306815600000000000000000000181812500000000000000000000000001458040400000000000000000000181800000000000000000000,
    1255276200000000000000000000183387500000000000000000000000001269877000000000000000000000183375000000000000000000000000001397573200000000000000000000183362500000000000000000000000001348426800000000000000000000183350000000000000000000000000001331880500000000000000000000183337500000000000000000000000001299794000000000000000000000183325000000000000000000000000001294308400000000000000000000183312500000000000000000000000001275277600000000000000000000183300000000000000000000000000001247524100000000000000000000183287500000000000000000000000001301603900000000000000000000183275000000000000000000000000001336073100000000000000000000183262500000000000000000000000001437354900000000000000000000183250000000000000000000000000001436394200000000000000000000183237500000000000000000000000001473062000000000000000000000183225000000000000000000000000001390005800000000000000000000183212500000000000000000000000001440587800000000000000000000183200000000000000000000000000001395702900000000000000000000183187500000000000000000000000001340735600000000000000000000183175000000000000000000000000001331278800000000000000000000183162500000000000000000000000001300789300000000000000000000183150000000000000000000000000001350182700000000000000000000183137500000000000000000000000001351796600000000000000000000183125000000000000000000000000001425549200000000000000000000183112500000000000000000000000001385511700000000000000000000183100000000000000000000000000001409489000000000000000000000183087500000000000000000000000001451975000000000000000000000183075000000000000000000000000001364726100000000000000000000183062500000000000000000000000001425340100000000000000000000183050000000000000000000000000001415617400000000000000000000183037500000000000000000000000001396286400000000000000000000183025000000000000000000000000001262283700000000000000000000183012500000000000000000000000001310650900000000000000000000183000000000000000000000000000001412024300000000000000000000182987500000000000000000000000001334878200000000000000000000182975000000000000000000000000001345489400000000000000000000182962500000000000000000000000001303924300000000000000000000182950000000000000000000000000001328957100000000000000000000182937500000000000000000000000001374863300000000000000000000182925000000000000000000000000001329239700000000000000000000182912500000000000000000000000001303626700000000000000000000182900000000000000000000000000001234486300000000000000000000182887500000000000000000000000001222886000000000000000000000182875000000000000000000000000001184722800000000000000000000182862500000000000000000000000001303643600000000000000000000182850000000000000000000000000001345331500000000000000000000182837500000000000000000000000001425300300000000000000000000182825000000000000000000000000001364183800000000000000000000182812500000000000000000000000001337561200000000000000000000182800000000000000000000000000001401304100000000000000000000182787500000000000000000000000001431870300000000000000000000182775000000000000000000000000001398812800000000000000000000182762500000000000000000000000001452705800000000000000000000182750000000000000000000000000001496289800000000000000000000182737500000000000000000000000001366321200000000000000000000182725000000000000000000000000001297431800000000000000000000182712500000000000000000000000001272318400000000000000000000182700000000000000000000000000001270873100000000000000000000182687500000000000000000000000001399372200000000000000000000182675000000000000000000000000001421953100000000000000000000182662500000000000000000000000001347427400000000000000000000182650000000000000000000000000001363168800000000000000000000182637500000000000000000000000001436829100000000000000000000182625000000000000000000000000001507079100000000000000000000182612500000000000000000000000001412658400000000000000000000182600000000000000000000,
    1412606800000000000000000000184187500000000000000000000000001390268100000000000000000000184175000000000000000000000000001490660400000000000000000000184162500000000000000000000000001400050600000000000000000000184150000000000000000000000000001402066100000000000000000000184137500000000000000000000000001435751800000000000000000000184125000000000000000000000000001515541400000000000000000000184112500000000000000000000000001386763600000000000000000000184100000000000000000000000000001312919100000000000000000000184087500000000000000000000000001298309600000000000000000000184075000000000000000000000000001381968000000000000000000000184062500000000000000000000000001454060300000000000000000000184050000000000000000000000000001449476500000000000000000000184037500000000000000000000000001465338300000000000000000000184025000000000000000000000000001271359200000000000000000000184012500000000000000000000000001243946700000000000000000000184000000000000000000000000000001357240100000000000000000000183987500000000000000000000000001376289400000000000000000000183975000000000000000000000000001436591300000000000000000000183962500000000000000000000000001443383600000000000000000000183950000000000000000000000000001429138900000000000000000000183937500000000000000000000000001317127900000000000000000000183925000000000000000000000000001299122300000000000000000000183912500000000000000000000000001210987200000000000000000000183900000000000000000000000000001290753400000000000000000000183887500000000000000000000000001355954100000000000000000000183875000000000000000000000000001385932800000000000000000000183862500000000000000000000000001447224000000000000000000000183850000000000000000000000000001324330400000000000000000000183837500000000000000000000000001357868500000000000000000000183825000000000000000000000000001467312800000000000000000000183812500000000000000000000000001333519000000000000000000000183800000000000000000000000000001371101600000000000000000000183787500000000000000000000000001380837000000000000000000000183775000000000000000000000000001351430800000000000000000000183762500000000000000000000000001437792500000000000000000000183750000000000000000000000000001463177700000000000000000000183737500000000000000000000000001432932600000000000000000000183725000000000000000000000000001377940600000000000000000000183712500000000000000000000000001363448500000000000000000000183700000000000000000000000000001472351800000000000000000000183687500000000000000000000000001479454200000000000000000000183675000000000000000000000000001458393000000000000000000000183662500000000000000000000000001389393800000000000000000000183650000000000000000000000000001251234900000000000000000000183637500000000000000000000000001357479200000000000000000000183625000000000000000000000000001331318700000000000000000000183612500000000000000000000000001369418100000000000000000000183600000000000000000000000000001388483500000000000000000000183587500000000000000000000000001263673800000000000000000000183575000000000000000000000000001342216300000000000000000000183562500000000000000000000000001352129000000000000000000000183550000000000000000000000000001248774600000000000000000000183537500000000000000000000000001281700600000000000000000000183525000000000000000000000000001288856600000000000000000000183512500000000000000000000000001293164100000000000000000000183500000000000000000000000000001342143500000000000000000000183487500000000000000000000000001374780400000000000000000000183475000000000000000000000000001254712600000000000000000000183462500000000000000000000000001374427400000000000000000000183450000000000000000000000000001462865700000000000000000000183437500000000000000000000000001458001200000000000000000000183425000000000000000000000000001336334300000000000000000000183412500000000000000000000000001292000600000000000000000000183400000000000000000000,
    1357833700000000000000000000184987500000000000000000000000001339666000000000000000000000184975000000000000000000000000001395997600000000000000000000184962500000000000000000000000001412363400000000000000000000184950000000000000000000000000001403441400000000000000000000184937500000000000000000000000001370452900000000000000000000184925000000000000000000000000001311544900000000000000000000184912500000000000000000000000001316821600000000000000000000184900000000000000000000000000001446235100000000000000000000184887500000000000000000000000001459170100000000000000000000184875000000000000000000000000001471646400000000000000000000184862500000000000000000000000001406166900000000000000000000184850000000000000000000000000001420029400000000000000000000184837500000000000000000000000001552543900000000000000000000184825000000000000000000000000001490063700000000000000000000184812500000000000000000000000001349754100000000000000000000184800000000000000000000000000001422562500000000000000000000184787500000000000000000000000001396219500000000000000000000184775000000000000000000000000001424534800000000000000000000184762500000000000000000000000001476639800000000000000000000184750000000000000000000000000001443510300000000000000000000184737500000000000000000000000001448599200000000000000000000184725000000000000000000000000001453788500000000000000000000184712500000000000000000000000001394611300000000000000000000184700000000000000000000000000001497046500000000000000000000184687500000000000000000000000001546533400000000000000000000184675000000000000000000000000001399125300000000000000000000184662500000000000000000000000001309696800000000000000000000184650000000000000000000000000001413031900000000000000000000184637500000000000000000000000001372544700000000000000000000184625000000000000000000000000001294098100000000000000000000184612500000000000000000000000001228284700000000000000000000184600000000000000000000000000001330667500000000000000000000184587500000000000000000000000001373809700000000000000000000184575000000000000000000000000001497968400000000000000000000184562500000000000000000000000001494721500000000000000000000184550000000000000000000000000001442556700000000000000000000184537500000000000000000000000001450359300000000000000000000184525000000000000000000000000001301766200000000000000000000184512500000000000000000000000001373606700000000000000000000184500000000000000000000000000001524800900000000000000000000184487500000000000000000000000001501517200000000000000000000184475000000000000000000000000001463263300000000000000000000184462500000000000000000000000001456803900000000000000000000184450000000000000000000000000001518937700000000000000000000184437500000000000000000000000001383965600000000000000000000184425000000000000000000000000001367385600000000000000000000184412500000000000000000000000001368944300000000000000000000184400000000000000000000000000001283141400000000000000000000184387500000000000000000000000001213228200000000000000000000184375000000000000000000000000001379714000000000000000000000184362500000000000000000000000001476597300000000000000000000184350000000000000000000000000001464503800000000000000000000184337500000000000000000000000001392288600000000000000000000184325000000000000000000000000001401940400000000000000000000184312500000000000000000000000001458458600000000000000000000184300000000000000000000000000001348033600000000000000000000184287500000000000000000000000001258390600000000000000000000184275000000000000000000000000001387632700000000000000000000184262500000000000000000000000001448091200000000000000000000184250000000000000000000000000001380298900000000000000000000184237500000000000000000000000001400221400000000000000000000184225000000000000000000000000001349088900000000000000000000184212500000000000000000000000001395588300000000000000000000184200000000000000000000,
    1397963400000000000000000000185787500000000000000000000000001332883000000000000000000000185775000000000000000000000000001453431000000000000000000000185762500000000000000000000000001356753800000000000000000000185750000000000000000000000000001306775600000000000000000000185737500000000000000000000000001335680300000000000000000000185725000000000000000000000000001415474300000000000000000000185712500000000000000000000000001431308600000000000000000000185700000000000000000000000000001456709400000000000000000000185687500000000000000000000000001506188800000000000000000000185675000000000000000000000000001441362200000000000000000000185662500000000000000000000000001386560300000000000000000000185650000000000000000000000000001432599000000000000000000000185637500000000000000000000000001532346700000000000000000000185625000000000000000000000000001529557800000000000000000000185612500000000000000000000000001431859400000000000000000000185600000000000000000000000000001402418900000000000000000000185587500000000000000000000000001292976300000000000000000000185575000000000000000000000000001419016700000000000000000000185562500000000000000000000000001494185300000000000000000000185550000000000000000000000000001452345400000000000000000000185537500000000000000000000000001400651000000000000000000000185525000000000000000000000000001349618200000000000000000000185512500000000000000000000000001336250400000000000000000000185500000000000000000000000000001449106000000000000000000000185487500000000000000000000000001444088800000000000000000000185475000000000000000000000000001453997200000000000000000000185462500000000000000000000000001495212900000000000000000000185450000000000000000000000000001414667400000000000000000000185437500000000000000000000000001466999800000000000000000000185425000000000000000000000000001479219900000000000000000000185412500000000000000000000000001526983000000000000000000000185400000000000000000000000000001433707900000000000000000000185387500000000000000000000000001326259900000000000000000000185375000000000000000000000000001366922300000000000000000000185362500000000000000000000000001365592800000000000000000000185350000000000000000000000000001296031000000000000000000000185337500000000000000000000000001355244300000000000000000000185325000000000000000000000000001387246100000000000000000000185312500000000000000000000000001386041500000000000000000000185300000000000000000000000000001324488300000000000000000000185287500000000000000000000000001325880400000000000000000000185275000000000000000000000000001307189500000000000000000000185262500000000000000000000000001347365600000000000000000000185250000000000000000000000000001271835800000000000000000000185237500000000000000000000000001365496100000000000000000000185225000000000000000000000000001444249500000000000000000000185212500000000000000000000000001463058400000000000000000000185200000000000000000000000000001417715400000000000000000000185187500000000000000000000000001311707600000000000000000000185175000000000000000000000000001347253600000000000000000000185162500000000000000000000000001301056000000000000000000000185150000000000000000000000000001386041600000000000000000000185137500000000000000000000000001410492900000000000000000000185125000000000000000000000000001471836000000000000000000000185112500000000000000000000000001441455900000000000000000000185100000000000000000000000000001444373100000000000000000000185087500000000000000000000000001421921800000000000000000000185075000000000000000000000000001432559000000000000000000000185062500000000000000000000000001401755400000000000000000000185050000000000000000000000000001395465200000000000000000000185037500000000000000000000000001336542900000000000000000000185025000000000000000000000000001398206500000000000000000000185012500000000000000000000000001457749200000000000000000000185000000000000000000000,
    1420176100000000000000000000186587500000000000000000000000001466819200000000000000000000186575000000000000000000000000001269503400000000000000000000186562500000000000000000000000001384339900000000000000000000186550000000000000000000000000001479240700000000000000000000186537500000000000000000000000001437408300000000000000000000186525000000000000000000000000001399941800000000000000000000186512500000000000000000000000001413777900000000000000000000186500000000000000000000000000001504335300000000000000000000186487500000000000000000000000001474537000000000000000000000186475000000000000000000000000001394156200000000000000000000186462500000000000000000000000001492257500000000000000000000186450000000000000000000000000001474539400000000000000000000186437500000000000000000000000001530817600000000000000000000186425000000000000000000000000001480488600000000000000000000186412500000000000000000000000001455280100000000000000000000186400000000000000000000000000001464702600000000000000000000186387500000000000000000000000001448332300000000000000000000186375000000000000000000000000001420608400000000000000000000186362500000000000000000000000001364730200000000000000000000186350000000000000000000000000001261210400000000000000000000186337500000000000000000000000001363644500000000000000000000186325000000000000000000000000001351163600000000000000000000186312500000000000000000000000001294543000000000000000000000186300000000000000000000000000001181038500000000000000000000186287500000000000000000000000001285080400000000000000000000186275000000000000000000000000001361989500000000000000000000186262500000000000000000000000001439586300000000000000000000186250000000000000000000000000001345243200000000000000000000186237500000000000000000000000001439072100000000000000000000186225000000000000000000000000001378337300000000000000000000186212500000000000000000000000001311034600000000000000000000186200000000000000000000000000001362193200000000000000000000186187500000000000000000000000001386261700000000000000000000186175000000000000000000000000001318913400000000000000000000186162500000000000000000000000001317854700000000000000000000186150000000000000000000000000001419557200000000000000000000186137500000000000000000000000001358050600000000000000000000186125000000000000000000000000001428961400000000000000000000186112500000000000000000000000001399299200000000000000000000186100000000000000000000000000001432429800000000000000000000186087500000000000000000000000001364378300000000000000000000186075000000000000000000000000001452818000000000000000000000186062500000000000000000000000001514248700000000000000000000186050000000000000000000000000001461013000000000000000000000186037500000000000000000000000001518417300000000000000000000186025000000000000000000000000001493039100000000000000000000186012500000000000000000000000001472899300000000000000000000186000000000000000000000000000001494697600000000000000000000185987500000000000000000000000001479463800000000000000000000185975000000000000000000000000001320567600000000000000000000185962500000000000000000000000001391446300000000000000000000185950000000000000000000000000001376983300000000000000000000185937500000000000000000000000001334762600000000000000000000185925000000000000000000000000001447812600000000000000000000185912500000000000000000000000001546474500000000000000000000185900000000000000000000000000001429833600000000000000000000185887500000000000000000000000001400565600000000000000000000185875000000000000000000000000001466210700000000000000000000185862500000000000000000000000001445359000000000000000000000185850000000000000000000000000001314631900000000000000000000185837500000000000000000000000001313444000000000000000000000185825000000000000000000000000001484452700000000000000000000185812500000000000000000000000001525099600000000000000000000185800000000000000000000,
    1420304600000000000000000000187387500000000000000000000000001506393400000000000000000000187375000000000000000000000000001385881700000000000000000000187362500000000000000000000000001365091400000000000000000000187350000000000000000000000000001374705600000000000000000000187337500000000000000000000000001376690700000000000000000000187325000000000000000000000000001485007500000000000000000000187312500000000000000000000000001432390500000000000000000000187300000000000000000000000000001395558800000000000000000000187287500000000000000000000000001390756300000000000000000000187275000000000000000000000000001367954100000000000000000000187262500000000000000000000000001467288200000000000000000000187250000000000000000000000000001448324400000000000000000000187237500000000000000000000000001538635200000000000000000000187225000000000000000000000000001489586200000000000000000000187212500000000000000000000000001283341400000000000000000000187200000000000000000000000000001255680000000000000000000000187187500000000000000000000000001412916000000000000000000000187175000000000000000000000000001435258100000000000000000000187162500000000000000000000000001393265400000000000000000000187150000000000000000000000000001330375800000000000000000000187137500000000000000000000000001284476300000000000000000000187125000000000000000000000000001235023900000000000000000000187112500000000000000000000000001293875900000000000000000000187100000000000000000000000000001478249300000000000000000000187087500000000000000000000000001473866900000000000000000000187075000000000000000000000000001388905600000000000000000000187062500000000000000000000000001454011700000000000000000000187050000000000000000000000000001413548100000000000000000000187037500000000000000000000000001314668000000000000000000000187025000000000000000000000000001359368600000000000000000000187012500000000000000000000000001327732400000000000000000000187000000000000000000000000000001367272700000000000000000000186987500000000000000000000000001529393400000000000000000000186975000000000000000000000000001570683900000000000000000000186962500000000000000000000000001581722400000000000000000000186950000000000000000000000000001471085200000000000000000000186937500000000000000000000000001426435500000000000000000000186925000000000000000000000000001503607700000000000000000000186912500000000000000000000000001453491300000000000000000000186900000000000000000000000000001440184400000000000000000000186887500000000000000000000000001360932500000000000000000000186875000000000000000000000000001341641200000000000000000000186862500000000000000000000000001388851400000000000000000000186850000000000000000000000000001298537000000000000000000000186837500000000000000000000000001406682700000000000000000000186825000000000000000000000000001430958500000000000000000000186812500000000000000000000000001397133800000000000000000000186800000000000000000000000000001256623300000000000000000000186787500000000000000000000000001261886600000000000000000000186775000000000000000000000000001369828800000000000000000000186762500000000000000000000000001414981900000000000000000000186750000000000000000000000000001390440100000000000000000000186737500000000000000000000000001426754000000000000000000000186725000000000000000000000000001295949600000000000000000000186712500000000000000000000000001332809600000000000000000000186700000000000000000000000000001398164100000000000000000000186687500000000000000000000000001310884100000000000000000000186675000000000000000000000000001335054100000000000000000000186662500000000000000000000000001335556000000000000000000000186650000000000000000000000000001271533200000000000000000000186637500000000000000000000000001180668700000000000000000000186625000000000000000000000000001292905400000000000000000000186612500000000000000000000000001333499300000000000000000000186600000000000000000000,
    1397492200000000000000000000188187500000000000000000000000001409192400000000000000000000188175000000000000000000000000001433793100000000000000000000188162500000000000000000000000001398763400000000000000000000188150000000000000000000000000001404429300000000000000000000188137500000000000000000000000001371614900000000000000000000188125000000000000000000000000001299486200000000000000000000188112500000000000000000000000001369197300000000000000000000188100000000000000000000000000001401264500000000000000000000188087500000000000000000000000001382172000000000000000000000188075000000000000000000000000001355889900000000000000000000188062500000000000000000000000001321657800000000000000000000188050000000000000000000000000001446167200000000000000000000188037500000000000000000000000001414425800000000000000000000188025000000000000000000000000001358111700000000000000000000188012500000000000000000000000001393274000000000000000000000188000000000000000000000000000001392189900000000000000000000187987500000000000000000000000001504182600000000000000000000187975000000000000000000000000001532953100000000000000000000187962500000000000000000000000001447393000000000000000000000187950000000000000000000000000001216924500000000000000000000187937500000000000000000000000001288772000000000000000000000187925000000000000000000000000001368833500000000000000000000187912500000000000000000000000001337179100000000000000000000187900000000000000000000000000001234520800000000000000000000187887500000000000000000000000001353691700000000000000000000187875000000000000000000000000001296098400000000000000000000187862500000000000000000000000001261285600000000000000000000187850000000000000000000000000001231460400000000000000000000187837500000000000000000000000001383205200000000000000000000187825000000000000000000000000001436894600000000000000000000187812500000000000000000000000001527030000000000000000000000187800000000000000000000000000001458262800000000000000000000187787500000000000000000000000001490231600000000000000000000187775000000000000000000000000001434726300000000000000000000187762500000000000000000000000001412748300000000000000000000187750000000000000000000000000001256320200000000000000000000187737500000000000000000000000001239901100000000000000000000187725000000000000000000000000001419402200000000000000000000187712500000000000000000000000001427931000000000000000000000187700000000000000000000000000001441998800000000000000000000187687500000000000000000000000001330264100000000000000000000187675000000000000000000000000001289171000000000000000000000187662500000000000000000000000001390057300000000000000000000187650000000000000000000000000001457444000000000000000000000187637500000000000000000000000001407346700000000000000000000187625000000000000000000000000001396747000000000000000000000187612500000000000000000000000001481949900000000000000000000187600000000000000000000000000001473327000000000000000000000187587500000000000000000000000001344718500000000000000000000187575000000000000000000000000001396935800000000000000000000187562500000000000000000000000001536215600000000000000000000187550000000000000000000000000001446629400000000000000000000187537500000000000000000000000001340986000000000000000000000187525000000000000000000000000001379497800000000000000000000187512500000000000000000000000001370031400000000000000000000187500000000000000000000000000001484070900000000000000000000187487500000000000000000000000001432307100000000000000000000187475000000000000000000000000001410649100000000000000000000187462500000000000000000000000001310771300000000000000000000187450000000000000000000000000001353165100000000000000000000187437500000000000000000000000001319536200000000000000000000187425000000000000000000000000001433804100000000000000000000187412500000000000000000000000001421300600000000000000000000187400000000000000000000,
    1432881100000000000000000000188987500000000000000000000000001332397400000000000000000000188975000000000000000000000000001397336100000000000000000000188962500000000000000000000000001410041600000000000000000000188950000000000000000000000000001409737100000000000000000000188937500000000000000000000000001452456600000000000000000000188925000000000000000000000000001343651800000000000000000000188912500000000000000000000000001369702300000000000000000000188900000000000000000000000000001404482000000000000000000000188887500000000000000000000000001381703400000000000000000000188875000000000000000000000000001356842300000000000000000000188862500000000000000000000000001301084500000000000000000000188850000000000000000000000000001307748700000000000000000000188837500000000000000000000000001300591600000000000000000000188825000000000000000000000000001407534500000000000000000000188812500000000000000000000000001546875700000000000000000000188800000000000000000000000000001359223100000000000000000000188787500000000000000000000000001464021300000000000000000000188775000000000000000000000000001489527200000000000000000000188762500000000000000000000000001510629300000000000000000000188750000000000000000000000000001425260500000000000000000000188737500000000000000000000000001420537800000000000000000000188725000000000000000000000000001417473500000000000000000000188712500000000000000000000000001351366900000000000000000000188700000000000000000000000000001405380500000000000000000000188687500000000000000000000000001309633400000000000000000000188675000000000000000000000000001272177300000000000000000000188662500000000000000000000000001375106600000000000000000000188650000000000000000000000000001388637800000000000000000000188637500000000000000000000000001321470200000000000000000000188625000000000000000000000000001454540500000000000000000000188612500000000000000000000000001440821600000000000000000000188600000000000000000000000000001287574700000000000000000000188587500000000000000000000000001329626000000000000000000000188575000000000000000000000000001259234500000000000000000000188562500000000000000000000000001300684400000000000000000000188550000000000000000000000000001403363300000000000000000000188537500000000000000000000000001410080600000000000000000000188525000000000000000000000000001403559600000000000000000000188512500000000000000000000000001391091200000000000000000000188500000000000000000000000000001386160700000000000000000000188487500000000000000000000000001375543100000000000000000000188475000000000000000000000000001326406000000000000000000000188462500000000000000000000000001455905100000000000000000000188450000000000000000000000000001482754500000000000000000000188437500000000000000000000000001388961700000000000000000000188425000000000000000000000000001513439200000000000000000000188412500000000000000000000000001409069400000000000000000000188400000000000000000000000000001322508600000000000000000000188387500000000000000000000000001423712800000000000000000000188375000000000000000000000000001439795900000000000000000000188362500000000000000000000000001425423700000000000000000000188350000000000000000000000000001332255300000000000000000000188337500000000000000000000000001383388300000000000000000000188325000000000000000000000000001539326700000000000000000000188312500000000000000000000000001434393900000000000000000000188300000000000000000000000000001413985500000000000000000000188287500000000000000000000000001414456100000000000000000000188275000000000000000000000000001467401400000000000000000000188262500000000000000000000000001317220200000000000000000000188250000000000000000000000000001490218900000000000000000000188237500000000000000000000000001401583800000000000000000000188225000000000000000000000000001345066700000000000000000000188212500000000000000000000000001371092200000000000000000000188200000000000000000000,
    1312750900000000000000000000189787500000000000000000000000001352496000000000000000000000189775000000000000000000000000001442749100000000000000000000189762500000000000000000000000001446504400000000000000000000189750000000000000000000000000001441088000000000000000000000189737500000000000000000000000001375067400000000000000000000189725000000000000000000000000001301500000000000000000000000189712500000000000000000000000001355212400000000000000000000189700000000000000000000000000001313453000000000000000000000189687500000000000000000000000001310811900000000000000000000189675000000000000000000000000001384611500000000000000000000189662500000000000000000000000001360303800000000000000000000189650000000000000000000000000001468893400000000000000000000189637500000000000000000000000001410875400000000000000000000189625000000000000000000000000001479675800000000000000000000189612500000000000000000000000001378421700000000000000000000189600000000000000000000000000001358143800000000000000000000189587500000000000000000000000001283587100000000000000000000189575000000000000000000000000001396203000000000000000000000189562500000000000000000000000001554326000000000000000000000189550000000000000000000000000001563143600000000000000000000189537500000000000000000000000001473210300000000000000000000189525000000000000000000000000001377508000000000000000000000189512500000000000000000000000001283800000000000000000000000189500000000000000000000000000001347631300000000000000000000189487500000000000000000000000001441304300000000000000000000189475000000000000000000000000001555773500000000000000000000189462500000000000000000000000001475349700000000000000000000189450000000000000000000000000001342678500000000000000000000189437500000000000000000000000001346078300000000000000000000189425000000000000000000000000001422719700000000000000000000189412500000000000000000000000001376227600000000000000000000189400000000000000000000000000001393955800000000000000000000189387500000000000000000000000001484691000000000000000000000189375000000000000000000000000001432082600000000000000000000189362500000000000000000000000001448380000000000000000000000189350000000000000000000000000001471056600000000000000000000189337500000000000000000000000001456753100000000000000000000189325000000000000000000000000001464488200000000000000000000189312500000000000000000000000001486142100000000000000000000189300000000000000000000000000001414026700000000000000000000189287500000000000000000000000001357552000000000000000000000189275000000000000000000000000001413343600000000000000000000189262500000000000000000000000001353445900000000000000000000189250000000000000000000000000001352917500000000000000000000189237500000000000000000000000001363478800000000000000000000189225000000000000000000000000001395830600000000000000000000189212500000000000000000000000001464176300000000000000000000189200000000000000000000000000001413842900000000000000000000189187500000000000000000000000001467683100000000000000000000189175000000000000000000000000001450266500000000000000000000189162500000000000000000000000001341557600000000000000000000189150000000000000000000000000001366841500000000000000000000189137500000000000000000000000001423687900000000000000000000189125000000000000000000000000001548001300000000000000000000189112500000000000000000000000001422767900000000000000000000189100000000000000000000000000001227411900000000000000000000189087500000000000000000000000001247437100000000000000000000189075000000000000000000000000001360132200000000000000000000189062500000000000000000000000001372389400000000000000000000189050000000000000000000000000001375290700000000000000000000189037500000000000000000000000001400108800000000000000000000189025000000000000000000000000001371639400000000000000000000189012500000000000000000000000001393285000000000000000000000189000000000000000000000,
    1416717300000000000000000000190587500000000000000000000000001526782400000000000000000000190575000000000000000000000000001358324700000000000000000000190562500000000000000000000000001361930500000000000000000000190550000000000000000000000000001418971100000000000000000000190537500000000000000000000000001469710500000000000000000000190525000000000000000000000000001487876100000000000000000000190512500000000000000000000000001436277500000000000000000000190500000000000000000000000000001423315500000000000000000000190487500000000000000000000000001400722600000000000000000000190475000000000000000000000000001352068600000000000000000000190462500000000000000000000000001369352700000000000000000000190450000000000000000000000000001452594200000000000000000000190437500000000000000000000000001416892200000000000000000000190425000000000000000000000000001405551500000000000000000000190412500000000000000000000000001490901700000000000000000000190400000000000000000000000000001407130700000000000000000000190387500000000000000000000000001331601600000000000000000000190375000000000000000000000000001362412200000000000000000000190362500000000000000000000000001325781800000000000000000000190350000000000000000000000000001299922600000000000000000000190337500000000000000000000000001351969700000000000000000000190325000000000000000000000000001436320400000000000000000000190312500000000000000000000000001451245900000000000000000000190300000000000000000000000000001493776800000000000000000000190287500000000000000000000000001417779400000000000000000000190275000000000000000000000000001232970000000000000000000000190262500000000000000000000000001276856000000000000000000000190250000000000000000000000000001379702900000000000000000000190237500000000000000000000000001393673900000000000000000000190225000000000000000000000000001384923900000000000000000000190212500000000000000000000000001460557800000000000000000000190200000000000000000000000000001475123200000000000000000000190187500000000000000000000000001369270800000000000000000000190175000000000000000000000000001345836300000000000000000000190162500000000000000000000000001350040100000000000000000000190150000000000000000000000000001281768800000000000000000000190137500000000000000000000000001350233000000000000000000000190125000000000000000000000000001332802700000000000000000000190112500000000000000000000000001505336900000000000000000000190100000000000000000000000000001481142700000000000000000000190087500000000000000000000000001413368700000000000000000000190075000000000000000000000000001389947600000000000000000000190062500000000000000000000000001475946100000000000000000000190050000000000000000000000000001440052600000000000000000000190037500000000000000000000000001435619200000000000000000000190025000000000000000000000000001359393800000000000000000000190012500000000000000000000000001473052000000000000000000000190000000000000000000000000000001466977700000000000000000000189987500000000000000000000000001292344900000000000000000000189975000000000000000000000000001315786800000000000000000000189962500000000000000000000000001415087600000000000000000000189950000000000000000000000000001393577200000000000000000000189937500000000000000000000000001386847400000000000000000000189925000000000000000000000000001385279000000000000000000000189912500000000000000000000000001403799100000000000000000000189900000000000000000000000000001422595000000000000000000000189887500000000000000000000000001489343700000000000000000000189875000000000000000000000000001394767400000000000000000000189862500000000000000000000000001361045200000000000000000000189850000000000000000000000000001408043700000000000000000000189837500000000000000000000000001360766100000000000000000000189825000000000000000000000000001405074500000000000000000000189812500000000000000000000000001464383100000000000000000000189800000000000000000000,
    1436300400000000000000000000191387500000000000000000000000001400047600000000000000000000191375000000000000000000000000001374882300000000000000000000191362500000000000000000000000001450267900000000000000000000191350000000000000000000000000001395549800000000000000000000191337500000000000000000000000001409623000000000000000000000191325000000000000000000000000001356230300000000000000000000191312500000000000000000000000001270336100000000000000000000191300000000000000000000000000001460560900000000000000000000191287500000000000000000000000001464626500000000000000000000191275000000000000000000000000001365488000000000000000000000191262500000000000000000000000001468198200000000000000000000191250000000000000000000000000001463801200000000000000000000191237500000000000000000000000001383324700000000000000000000191225000000000000000000000000001351979300000000000000000000191212500000000000000000000000001517379100000000000000000000191200000000000000000000000000001424805800000000000000000000191187500000000000000000000000001295790200000000000000000000191175000000000000000000000000001482976700000000000000000000191162500000000000000000000000001442900300000000000000000000191150000000000000000000000000001368574100000000000000000000191137500000000000000000000000001486753000000000000000000000191125000000000000000000000000001406034000000000000000000000191112500000000000000000000000001404253400000000000000000000191100000000000000000000000000001474384300000000000000000000191087500000000000000000000000001363681000000000000000000000191075000000000000000000000000001410134900000000000000000000191062500000000000000000000000001519807500000000000000000000191050000000000000000000000000001471462100000000000000000000191037500000000000000000000000001414146000000000000000000000191025000000000000000000000000001446069700000000000000000000191012500000000000000000000000001484647400000000000000000000191000000000000000000000000000001493482200000000000000000000190987500000000000000000000000001353559900000000000000000000190975000000000000000000000000001360334800000000000000000000190962500000000000000000000000001412345300000000000000000000190950000000000000000000000000001365866700000000000000000000190937500000000000000000000000001436788400000000000000000000190925000000000000000000000000001443756200000000000000000000190912500000000000000000000000001494419700000000000000000000190900000000000000000000000000001463905700000000000000000000190887500000000000000000000000001350180000000000000000000000190875000000000000000000000000001437670600000000000000000000190862500000000000000000000000001407040500000000000000000000190850000000000000000000000000001387281900000000000000000000190837500000000000000000000000001353631600000000000000000000190825000000000000000000000000001472581500000000000000000000190812500000000000000000000000001564011500000000000000000000190800000000000000000000000000001573389600000000000000000000190787500000000000000000000000001443173300000000000000000000190775000000000000000000000000001183680300000000000000000000190762500000000000000000000000001277404700000000000000000000190750000000000000000000000000001318336600000000000000000000190737500000000000000000000000001393927200000000000000000000190725000000000000000000000000001518143600000000000000000000190712500000000000000000000000001497199300000000000000000000190700000000000000000000000000001475849500000000000000000000190687500000000000000000000000001443806200000000000000000000190675000000000000000000000000001387950500000000000000000000190662500000000000000000000000001343933500000000000000000000190650000000000000000000000000001302982300000000000000000000190637500000000000000000000000001385189700000000000000000000190625000000000000000000000000001519775000000000000000000000190612500000000000000000000000001464476500000000000000000000190600000000000000000000,
    1419915900000000000000000000192187500000000000000000000000001427962000000000000000000000192175000000000000000000000000001410882200000000000000000000192162500000000000000000000000001442040000000000000000000000192150000000000000000000000000001358610000000000000000000000192137500000000000000000000000001353979400000000000000000000192125000000000000000000000000001373256700000000000000000000192112500000000000000000000000001417420600000000000000000000192100000000000000000000000000001396666200000000000000000000192087500000000000000000000000001439644100000000000000000000192075000000000000000000000000001336975100000000000000000000192062500000000000000000000000001330079100000000000000000000192050000000000000000000000000001470879500000000000000000000192037500000000000000000000000001454304100000000000000000000192025000000000000000000000000001497324000000000000000000000192012500000000000000000000000001439666000000000000000000000192000000000000000000000000000001294762400000000000000000000191987500000000000000000000000001410064000000000000000000000191975000000000000000000000000001449990000000000000000000000191962500000000000000000000000001495093100000000000000000000191950000000000000000000000000001582379000000000000000000000191937500000000000000000000000001504672700000000000000000000191925000000000000000000000000001487701400000000000000000000191912500000000000000000000000001540453000000000000000000000191900000000000000000000000000001518963100000000000000000000191887500000000000000000000000001470260300000000000000000000191875000000000000000000000000001443332500000000000000000000191862500000000000000000000000001469968500000000000000000000191850000000000000000000000000001498255000000000000000000000191837500000000000000000000000001410579600000000000000000000191825000000000000000000000000001440302700000000000000000000191812500000000000000000000000001461231100000000000000000000191800000000000000000000000000001453861500000000000000000000191787500000000000000000000000001452357200000000000000000000191775000000000000000000000000001392908200000000000000000000191762500000000000000000000000001448159900000000000000000000191750000000000000000000000000001469807300000000000000000000191737500000000000000000000000001456343100000000000000000000191725000000000000000000000000001407941600000000000000000000191712500000000000000000000000001475985600000000000000000000191700000000000000000000000000001398054000000000000000000000191687500000000000000000000000001427408500000000000000000000191675000000000000000000000000001360242600000000000000000000191662500000000000000000000000001372305300000000000000000000191650000000000000000000000000001461209800000000000000000000191637500000000000000000000000001459589700000000000000000000191625000000000000000000000000001525699900000000000000000000191612500000000000000000000000001533792300000000000000000000191600000000000000000000000000001431913000000000000000000000191587500000000000000000000000001399440200000000000000000000191575000000000000000000000000001515671800000000000000000000191562500000000000000000000000001295879900000000000000000000191550000000000000000000000000001266709600000000000000000000191537500000000000000000000000001337453300000000000000000000191525000000000000000000000000001337353100000000000000000000191512500000000000000000000000001469055200000000000000000000191500000000000000000000000000001469204900000000000000000000191487500000000000000000000000001442347100000000000000000000191475000000000000000000000000001395729900000000000000000000191462500000000000000000000000001353833400000000000000000000191450000000000000000000000000001286212400000000000000000000191437500000000000000000000000001346975900000000000000000000191425000000000000000000000000001448252900000000000000000000191412500000000000000000000000001473882100000000000000000000191400000000000000000000,
    1367612500000000000000000000192987500000000000000000000000001364657400000000000000000000192975000000000000000000000000001303167100000000000000000000192962500000000000000000000000001293988600000000000000000000192950000000000000000000000000001392292300000000000000000000192937500000000000000000000000001376563900000000000000000000192925000000000000000000000000001430034500000000000000000000192912500000000000000000000000001473497000000000000000000000192900000000000000000000000000001449548300000000000000000000192887500000000000000000000000001513219900000000000000000000192875000000000000000000000000001529161600000000000000000000192862500000000000000000000000001535787300000000000000000000192850000000000000000000000000001475688500000000000000000000192837500000000000000000000000001563655900000000000000000000192825000000000000000000000000001521339100000000000000000000192812500000000000000000000000001498793000000000000000000000192800000000000000000000000000001474341600000000000000000000192787500000000000000000000000001385396000000000000000000000192775000000000000000000000000001445257300000000000000000000192762500000000000000000000000001584890900000000000000000000192750000000000000000000000000001501486800000000000000000000192737500000000000000000000000001441809200000000000000000000192725000000000000000000000000001423483600000000000000000000192712500000000000000000000000001398230400000000000000000000192700000000000000000000000000001419235300000000000000000000192687500000000000000000000000001375805400000000000000000000192675000000000000000000000000001443993800000000000000000000192662500000000000000000000000001579548900000000000000000000192650000000000000000000000000001528113000000000000000000000192637500000000000000000000000001450123300000000000000000000192625000000000000000000000000001497884800000000000000000000192612500000000000000000000000001524463400000000000000000000192600000000000000000000000000001458219200000000000000000000192587500000000000000000000000001490661400000000000000000000192575000000000000000000000000001456445100000000000000000000192562500000000000000000000000001347766700000000000000000000192550000000000000000000000000001390373400000000000000000000192537500000000000000000000000001436773600000000000000000000192525000000000000000000000000001404565400000000000000000000192512500000000000000000000000001423970800000000000000000000192500000000000000000000000000001468255500000000000000000000192487500000000000000000000000001395797100000000000000000000192475000000000000000000000000001362749600000000000000000000192462500000000000000000000000001363665600000000000000000000192450000000000000000000000000001291079900000000000000000000192437500000000000000000000000001418579400000000000000000000192425000000000000000000000000001359362400000000000000000000192412500000000000000000000000001337181800000000000000000000192400000000000000000000000000001309594100000000000000000000192387500000000000000000000000001415464100000000000000000000192375000000000000000000000000001480230800000000000000000000192362500000000000000000000000001361426700000000000000000000192350000000000000000000000000001349595700000000000000000000192337500000000000000000000000001425931500000000000000000000192325000000000000000000000000001456702100000000000000000000192312500000000000000000000000001520976600000000000000000000192300000000000000000000000000001554788000000000000000000000192287500000000000000000000000001536753100000000000000000000192275000000000000000000000000001463162600000000000000000000192262500000000000000000000000001492355600000000000000000000192250000000000000000000000000001419392400000000000000000000192237500000000000000000000000001419677200000000000000000000192225000000000000000000000000001401915800000000000000000000192212500000000000000000000000001422342200000000000000000000192200000000000000000000,
    1498328200000000000000000000193787500000000000000000000000001575346200000000000000000000193775000000000000000000000000001523045300000000000000000000193762500000000000000000000000001463916000000000000000000000193750000000000000000000000000001442687600000000000000000000193737500000000000000000000000001437340000000000000000000000193725000000000000000000000000001462949200000000000000000000193712500000000000000000000000001491207000000000000000000000193700000000000000000000000000001429514600000000000000000000193687500000000000000000000000001544914700000000000000000000193675000000000000000000000000001482555700000000000000000000193662500000000000000000000000001615395200000000000000000000193650000000000000000000000000010922261000000000000000000000193637500000000000000000000000027999102000000000000000000000193625000000000000000000000000017747843000000000000000000000193612500000000000000000000000001816101400000000000000000000193600000000000000000000000000001584308700000000000000000000193587500000000000000000000000001400178400000000000000000000193575000000000000000000000000001593945100000000000000000000193562500000000000000000000000001723728800000000000000000000193550000000000000000000000000001465452500000000000000000000193537500000000000000000000000001503686100000000000000000000193525000000000000000000000000001451914400000000000000000000193512500000000000000000000000001442032300000000000000000000193500000000000000000000000000001352139900000000000000000000193487500000000000000000000000001467097100000000000000000000193475000000000000000000000000001455208800000000000000000000193462500000000000000000000000001404837500000000000000000000193450000000000000000000000000001524969400000000000000000000193437500000000000000000000000001503452400000000000000000000193425000000000000000000000000001452875000000000000000000000193412500000000000000000000000001366660300000000000000000000193400000000000000000000000000001392984400000000000000000000193387500000000000000000000000001348533700000000000000000000193375000000000000000000000000001378989100000000000000000000193362500000000000000000000000001388902100000000000000000000193350000000000000000000000000001437931600000000000000000000193337500000000000000000000000001478888000000000000000000000193325000000000000000000000000001440369300000000000000000000193312500000000000000000000000001344000200000000000000000000193300000000000000000000000000001401328000000000000000000000193287500000000000000000000000001433575600000000000000000000193275000000000000000000000000001477885600000000000000000000193262500000000000000000000000001601952200000000000000000000193250000000000000000000000000001587446900000000000000000000193237500000000000000000000000001428250200000000000000000000193225000000000000000000000000001382239000000000000000000000193212500000000000000000000000001424662200000000000000000000193200000000000000000000000000001567482000000000000000000000193187500000000000000000000000001579447400000000000000000000193175000000000000000000000000001522077600000000000000000000193162500000000000000000000000001457113700000000000000000000193150000000000000000000000000001514668600000000000000000000193137500000000000000000000000001391350400000000000000000000193125000000000000000000000000001567363900000000000000000000193112500000000000000000000000001645554100000000000000000000193100000000000000000000000000001442436400000000000000000000193087500000000000000000000000001418124500000000000000000000193075000000000000000000000000001431480400000000000000000000193062500000000000000000000000001366169300000000000000000000193050000000000000000000000000001407383600000000000000000000193037500000000000000000000000001453680700000000000000000000193025000000000000000000000000001396127400000000000000000000193012500000000000000000000000001264212800000000000000000000193000000000000000000000,
    1395441700000000000000000000194587500000000000000000000000001372147900000000000000000000194575000000000000000000000000001453724500000000000000000000194562500000000000000000000000001466958300000000000000000000194550000000000000000000000000001481028500000000000000000000194537500000000000000000000000001501403200000000000000000000194525000000000000000000000000002505952800000000000000000000194512500000000000000000000000002680627300000000000000000000194500000000000000000000000000002650822900000000000000000000194487500000000000000000000000002216501800000000000000000000194475000000000000000000000000001534450100000000000000000000194462500000000000000000000000001519365400000000000000000000194450000000000000000000000000001398216100000000000000000000194437500000000000000000000000001395923200000000000000000000194425000000000000000000000000001496174700000000000000000000194412500000000000000000000000001526772000000000000000000000194400000000000000000000000000001479357200000000000000000000194387500000000000000000000000001511239500000000000000000000194375000000000000000000000000001444762700000000000000000000194362500000000000000000000000001417158300000000000000000000194350000000000000000000000000001424073300000000000000000000194337500000000000000000000000001422290600000000000000000000194325000000000000000000000000001482315700000000000000000000194312500000000000000000000000001315054200000000000000000000194300000000000000000000000000001277951800000000000000000000194287500000000000000000000000001481375800000000000000000000194275000000000000000000000000001440634600000000000000000000194262500000000000000000000000001300443600000000000000000000194250000000000000000000000000001343239700000000000000000000194237500000000000000000000000001477973300000000000000000000194225000000000000000000000000001474702800000000000000000000194212500000000000000000000000001459819100000000000000000000194200000000000000000000000000001352328200000000000000000000194187500000000000000000000000001348268900000000000000000000194175000000000000000000000000001391430400000000000000000000194162500000000000000000000000001315287400000000000000000000194150000000000000000000000000001364088100000000000000000000194137500000000000000000000000001310764400000000000000000000194125000000000000000000000000001359065800000000000000000000194112500000000000000000000000001439613500000000000000000000194100000000000000000000000000001448827400000000000000000000194087500000000000000000000000001479595000000000000000000000194075000000000000000000000000001411108400000000000000000000194062500000000000000000000000001448362300000000000000000000194050000000000000000000000000001487256500000000000000000000194037500000000000000000000000001537820700000000000000000000194025000000000000000000000000001481576000000000000000000000194012500000000000000000000000001468637000000000000000000000194000000000000000000000000000001480462200000000000000000000193987500000000000000000000000001456817900000000000000000000193975000000000000000000000000001488140600000000000000000000193962500000000000000000000000001407284700000000000000000000193950000000000000000000000000001454098300000000000000000000193937500000000000000000000000001404035000000000000000000000193925000000000000000000000000001364710100000000000000000000193912500000000000000000000000001481595500000000000000000000193900000000000000000000000000001582572400000000000000000000193887500000000000000000000000001492748300000000000000000000193875000000000000000000000000001485869400000000000000000000193862500000000000000000000000001533744100000000000000000000193850000000000000000000000000001530148400000000000000000000193837500000000000000000000000001523999000000000000000000000193825000000000000000000000000001444005700000000000000000000193812500000000000000000000000001331296200000000000000000000193800000000000000000000,
    2117628700000000000000000000195387500000000000000000000000010186927000000000000000000000195375000000000000000000000000010947312000000000000000000000195362500000000000000000000000003004244700000000000000000000195350000000000000000000000000001466367800000000000000000000195337500000000000000000000000001441045600000000000000000000195325000000000000000000000000001395694500000000000000000000195312500000000000000000000000001600266000000000000000000000195300000000000000000000000000001722192900000000000000000000195287500000000000000000000000001548839000000000000000000000195275000000000000000000000000002152622800000000000000000000195262500000000000000000000000002362133400000000000000000000195250000000000000000000000000001519835800000000000000000000195237500000000000000000000000001454677900000000000000000000195225000000000000000000000000001442842700000000000000000000195212500000000000000000000000001581605000000000000000000000195200000000000000000000000000002773107800000000000000000000195187500000000000000000000000014175538000000000000000000000195175000000000000000000000000015104805000000000000000000000195162500000000000000000000000003641966700000000000000000000195150000000000000000000000000001453472900000000000000000000195137500000000000000000000000001410875100000000000000000000195125000000000000000000000000001391579300000000000000000000195112500000000000000000000000001446695600000000000000000000195100000000000000000000000000001440363300000000000000000000195087500000000000000000000000006713469600000000000000000000195075000000000000000000000000012537155000000000000000000000195062500000000000000000000000007101870100000000000000000000195050000000000000000000000000012625827000000000000000000000195037500000000000000000000000009599094200000000000000000000195025000000000000000000000000001699563100000000000000000000195012500000000000000000000000001454555200000000000000000000195000000000000000000000000000001419618700000000000000000000194987500000000000000000000000001378446400000000000000000000194975000000000000000000000000001357822200000000000000000000194962500000000000000000000000001410985400000000000000000000194950000000000000000000000000001308097300000000000000000000194937500000000000000000000000001321175800000000000000000000194925000000000000000000000000001374048200000000000000000000194912500000000000000000000000001436748400000000000000000000194900000000000000000000000000001484526600000000000000000000194887500000000000000000000000001525546200000000000000000000194875000000000000000000000000001480062700000000000000000000194862500000000000000000000000001449554300000000000000000000194850000000000000000000000000001474234300000000000000000000194837500000000000000000000000001403033500000000000000000000194825000000000000000000000000001349364300000000000000000000194812500000000000000000000000001367783700000000000000000000194800000000000000000000000000001438265900000000000000000000194787500000000000000000000000001352892400000000000000000000194775000000000000000000000000001398570200000000000000000000194762500000000000000000000000001386608100000000000000000000194750000000000000000000000000001485469800000000000000000000194737500000000000000000000000001518963300000000000000000000194725000000000000000000000000001392978700000000000000000000194712500000000000000000000000001471369600000000000000000000194700000000000000000000000000001450589600000000000000000000194687500000000000000000000000001447793500000000000000000000194675000000000000000000000000001425134200000000000000000000194662500000000000000000000000001413457200000000000000000000194650000000000000000000000000001378082400000000000000000000194637500000000000000000000000001449001600000000000000000000194625000000000000000000000000001633831800000000000000000000194612500000000000000000000000001634427200000000000000000000194600000000000000000000,
    2539746300000000000000000000196187500000000000000000000000022813671000000000000000000000196175000000000000000000000000031342307000000000000000000000196162500000000000000000000000010217689000000000000000000000196150000000000000000000000000001797294000000000000000000000196137500000000000000000000000001437146600000000000000000000196125000000000000000000000000001431836000000000000000000000196112500000000000000000000000001542937500000000000000000000196100000000000000000000000000001543149000000000000000000000196087500000000000000000000000001422038900000000000000000000196075000000000000000000000000001355499100000000000000000000196062500000000000000000000000001427446000000000000000000000196050000000000000000000000000001444267300000000000000000000196037500000000000000000000000001464506100000000000000000000196025000000000000000000000000001514569100000000000000000000196012500000000000000000000000001606132200000000000000000000196000000000000000000000000000001604903400000000000000000000195987500000000000000000000000001565299400000000000000000000195975000000000000000000000000001478699200000000000000000000195962500000000000000000000000001454345400000000000000000000195950000000000000000000000000001464822400000000000000000000195937500000000000000000000000001669244900000000000000000000195925000000000000000000000000001406285700000000000000000000195912500000000000000000000000001377529000000000000000000000195900000000000000000000000000001305013800000000000000000000195887500000000000000000000000001404439300000000000000000000195875000000000000000000000000001526081000000000000000000000195862500000000000000000000000002073619500000000000000000000195850000000000000000000000000001784103200000000000000000000195837500000000000000000000000001585421400000000000000000000195825000000000000000000000000001656789500000000000000000000195812500000000000000000000000001561108100000000000000000000195800000000000000000000000000001680189300000000000000000000195787500000000000000000000000003594013300000000000000000000195775000000000000000000000000016405582000000000000000000000195762500000000000000000000000017892146000000000000000000000195750000000000000000000000000004441933400000000000000000000195737500000000000000000000000001552000400000000000000000000195725000000000000000000000000001489452300000000000000000000195712500000000000000000000000001365708600000000000000000000195700000000000000000000000000001485446200000000000000000000195687500000000000000000000000001398706800000000000000000000195675000000000000000000000000001470552100000000000000000000195662500000000000000000000000001534745800000000000000000000195650000000000000000000000000001506661600000000000000000000195637500000000000000000000000001559476700000000000000000000195625000000000000000000000000001486909900000000000000000000195612500000000000000000000000001492348400000000000000000000195600000000000000000000000000001640798800000000000000000000195587500000000000000000000000001467302200000000000000000000195575000000000000000000000000001326328400000000000000000000195562500000000000000000000000001389204700000000000000000000195550000000000000000000000000001463058100000000000000000000195537500000000000000000000000001492117400000000000000000000195525000000000000000000000000001400832200000000000000000000195512500000000000000000000000001421852800000000000000000000195500000000000000000000000000001427633800000000000000000000195487500000000000000000000000001495729700000000000000000000195475000000000000000000000000001465542400000000000000000000195462500000000000000000000000001576915300000000000000000000195450000000000000000000000000001725251200000000000000000000195437500000000000000000000000001371136700000000000000000000195425000000000000000000000000001457957400000000000000000000195412500000000000000000000000001542736200000000000000000000195400000000000000000000,
    1537044700000000000000000000196987500000000000000000000000001515419800000000000000000000196975000000000000000000000000001447224600000000000000000000196962500000000000000000000000001580572900000000000000000000196950000000000000000000000000001516040500000000000000000000196937500000000000000000000000001538289000000000000000000000196925000000000000000000000000001496690400000000000000000000196912500000000000000000000000001497071900000000000000000000196900000000000000000000000000001540373200000000000000000000196887500000000000000000000000001522156000000000000000000000196875000000000000000000000000001521542800000000000000000000196862500000000000000000000000001400688500000000000000000000196850000000000000000000000000001429204000000000000000000000196837500000000000000000000000001372387300000000000000000000196825000000000000000000000000001404368300000000000000000000196812500000000000000000000000001473172200000000000000000000196800000000000000000000000000001444626200000000000000000000196787500000000000000000000000001442450100000000000000000000196775000000000000000000000000001505709100000000000000000000196762500000000000000000000000003191773300000000000000000000196750000000000000000000000000005118255000000000000000000000196737500000000000000000000000002734563500000000000000000000196725000000000000000000000000001744120200000000000000000000196712500000000000000000000000001495497500000000000000000000196700000000000000000000000000001454478200000000000000000000196687500000000000000000000000001538974900000000000000000000196675000000000000000000000000010163945000000000000000000000196662500000000000000000000000023503664000000000000000000000196650000000000000000000000000013527509000000000000000000000196637500000000000000000000000001558017500000000000000000000196625000000000000000000000000001892964500000000000000000000196612500000000000000000000000011852530000000000000000000000196600000000000000000000000000015697146000000000000000000000196587500000000000000000000000005005230000000000000000000000196575000000000000000000000000001590999100000000000000000000196562500000000000000000000000001556001500000000000000000000196550000000000000000000000000001384002700000000000000000000196537500000000000000000000000001344583000000000000000000000196525000000000000000000000000001294277200000000000000000000196512500000000000000000000000001321974300000000000000000000196500000000000000000000000000001364023100000000000000000000196487500000000000000000000000001537211500000000000000000000196475000000000000000000000000001506321700000000000000000000196462500000000000000000000000001334836400000000000000000000196450000000000000000000000000001336277700000000000000000000196437500000000000000000000000001411615700000000000000000000196425000000000000000000000000001472490100000000000000000000196412500000000000000000000000001601099300000000000000000000196400000000000000000000000000001576267900000000000000000000196387500000000000000000000000001610377600000000000000000000196375000000000000000000000000001623539300000000000000000000196362500000000000000000000000001558979000000000000000000000196350000000000000000000000000001444691900000000000000000000196337500000000000000000000000001550832900000000000000000000196325000000000000000000000000001572356100000000000000000000196312500000000000000000000000001497343300000000000000000000196300000000000000000000000000001524857700000000000000000000196287500000000000000000000000001666601300000000000000000000196275000000000000000000000000007871161800000000000000000000196262500000000000000000000000011128442000000000000000000000196250000000000000000000000000005294199200000000000000000000196237500000000000000000000000002564595200000000000000000000196225000000000000000000000000001620217500000000000000000000196212500000000000000000000000001681477800000000000000000000196200000000000000000000,
    1325752900000000000000000000197787500000000000000000000000001401786000000000000000000000197775000000000000000000000000001435973300000000000000000000197762500000000000000000000000001387654900000000000000000000197750000000000000000000000000001304698900000000000000000000197737500000000000000000000000001667155500000000000000000000197725000000000000000000000000010129060000000000000000000000197712500000000000000000000000014851855000000000000000000000197700000000000000000000000000006998248300000000000000000000197687500000000000000000000000001795762400000000000000000000197675000000000000000000000000001510667700000000000000000000197662500000000000000000000000001505227600000000000000000000197650000000000000000000000000001399150000000000000000000000197637500000000000000000000000001342144400000000000000000000197625000000000000000000000000001368999900000000000000000000197612500000000000000000000000001445969800000000000000000000197600000000000000000000000000001634975300000000000000000000197587500000000000000000000000001511635000000000000000000000197575000000000000000000000000001429875500000000000000000000197562500000000000000000000000001438473100000000000000000000197550000000000000000000000000001412508500000000000000000000197537500000000000000000000000002937320300000000000000000000197525000000000000000000000000003977082100000000000000000000197512500000000000000000000000001991094300000000000000000000197500000000000000000000000000001935517700000000000000000000197487500000000000000000000000005667802000000000000000000000197475000000000000000000000000005158878000000000000000000000197462500000000000000000000000001619879100000000000000000000197450000000000000000000000000001597553100000000000000000000197437500000000000000000000000001605927600000000000000000000197425000000000000000000000000001417689400000000000000000000197412500000000000000000000000001342091400000000000000000000197400000000000000000000000000001391438500000000000000000000197387500000000000000000000000001440394200000000000000000000197375000000000000000000000000001586984600000000000000000000197362500000000000000000000000001590862900000000000000000000197350000000000000000000000000001612981900000000000000000000197337500000000000000000000000001536665600000000000000000000197325000000000000000000000000001454558000000000000000000000197312500000000000000000000000001528026200000000000000000000197300000000000000000000000000001346017300000000000000000000197287500000000000000000000000001335831700000000000000000000197275000000000000000000000000001502913300000000000000000000197262500000000000000000000000001592752500000000000000000000197250000000000000000000000000001634862300000000000000000000197237500000000000000000000000001555158900000000000000000000197225000000000000000000000000001482772000000000000000000000197212500000000000000000000000001395864200000000000000000000197200000000000000000000000000001410407000000000000000000000197187500000000000000000000000001467469300000000000000000000197175000000000000000000000000001511684900000000000000000000197162500000000000000000000000001595627500000000000000000000197150000000000000000000000000001443403000000000000000000000197137500000000000000000000000001470309900000000000000000000197125000000000000000000000000001510313400000000000000000000197112500000000000000000000000001414460900000000000000000000197100000000000000000000000000001333404500000000000000000000197087500000000000000000000000001578887300000000000000000000197075000000000000000000000000001533183600000000000000000000197062500000000000000000000000001466363000000000000000000000197050000000000000000000000000001547692800000000000000000000197037500000000000000000000000001563521300000000000000000000197025000000000000000000000000001548439000000000000000000000197012500000000000000000000000001448775500000000000000000000197000000000000000000000,
    1323054500000000000000000000198587500000000000000000000000001530283200000000000000000000198575000000000000000000000000001513949800000000000000000000198562500000000000000000000000001385369500000000000000000000198550000000000000000000000000001799201800000000000000000000198537500000000000000000000000002281055200000000000000000000198525000000000000000000000000001628549400000000000000000000198512500000000000000000000000001438820300000000000000000000198500000000000000000000000000001390658200000000000000000000198487500000000000000000000000001468254000000000000000000000198475000000000000000000000000001501986400000000000000000000198462500000000000000000000000001385686500000000000000000000198450000000000000000000000000001489968200000000000000000000198437500000000000000000000000001431379900000000000000000000198425000000000000000000000000001422543200000000000000000000198412500000000000000000000000001482951400000000000000000000198400000000000000000000000000001544753900000000000000000000198387500000000000000000000000001525828200000000000000000000198375000000000000000000000000001456085900000000000000000000198362500000000000000000000000001477338000000000000000000000198350000000000000000000000000001424272100000000000000000000198337500000000000000000000000001541031500000000000000000000198325000000000000000000000000001436674900000000000000000000198312500000000000000000000000001406337900000000000000000000198300000000000000000000000000001556622700000000000000000000198287500000000000000000000000001492689900000000000000000000198275000000000000000000000000001443489200000000000000000000198262500000000000000000000000001578991900000000000000000000198250000000000000000000000000001470973900000000000000000000198237500000000000000000000000001400839300000000000000000000198225000000000000000000000000001449369900000000000000000000198212500000000000000000000000001423171800000000000000000000198200000000000000000000000000001458336300000000000000000000198187500000000000000000000000001595400200000000000000000000198175000000000000000000000000001600476000000000000000000000198162500000000000000000000000001479034900000000000000000000198150000000000000000000000000001481522400000000000000000000198137500000000000000000000000001506002900000000000000000000198125000000000000000000000000001492031100000000000000000000198112500000000000000000000000001497454200000000000000000000198100000000000000000000000000001479323900000000000000000000198087500000000000000000000000001508850500000000000000000000198075000000000000000000000000001484541100000000000000000000198062500000000000000000000000001473511500000000000000000000198050000000000000000000000000001368898000000000000000000000198037500000000000000000000000001388997000000000000000000000198025000000000000000000000000001478886100000000000000000000198012500000000000000000000000001527614600000000000000000000198000000000000000000000000000001435883900000000000000000000197987500000000000000000000000001331264400000000000000000000197975000000000000000000000000001246887400000000000000000000197962500000000000000000000000001417370500000000000000000000197950000000000000000000000000001593151500000000000000000000197937500000000000000000000000001464183000000000000000000000197925000000000000000000000000001448056500000000000000000000197912500000000000000000000000001524569800000000000000000000197900000000000000000000000000001476155400000000000000000000197887500000000000000000000000001397036100000000000000000000197875000000000000000000000000001393147600000000000000000000197862500000000000000000000000001404004600000000000000000000197850000000000000000000000000001457805600000000000000000000197837500000000000000000000000001472565700000000000000000000197825000000000000000000000000001477100200000000000000000000197812500000000000000000000000001426669400000000000000000000197800000000000000000000,
    1516933900000000000000000000199387500000000000000000000000001531533200000000000000000000199375000000000000000000000000001484388600000000000000000000199362500000000000000000000000001502783600000000000000000000199350000000000000000000000000001536493100000000000000000000199337500000000000000000000000001542600600000000000000000000199325000000000000000000000000001544447600000000000000000000199312500000000000000000000000001529783800000000000000000000199300000000000000000000000000001564382300000000000000000000199287500000000000000000000000001650574200000000000000000000199275000000000000000000000000001579361300000000000000000000199262500000000000000000000000001488087500000000000000000000199250000000000000000000000000001424032800000000000000000000199237500000000000000000000000001467471900000000000000000000199225000000000000000000000000001504141600000000000000000000199212500000000000000000000000001518002500000000000000000000199200000000000000000000000000001363554600000000000000000000199187500000000000000000000000001458680800000000000000000000199175000000000000000000000000001479537800000000000000000000199162500000000000000000000000001298877900000000000000000000199150000000000000000000000000001408565600000000000000000000199137500000000000000000000000001379154100000000000000000000199125000000000000000000000000001420490600000000000000000000199112500000000000000000000000001573546100000000000000000000199100000000000000000000000000001599000500000000000000000000199087500000000000000000000000001543219900000000000000000000199075000000000000000000000000001492732400000000000000000000199062500000000000000000000000001387850100000000000000000000199050000000000000000000000000001453405400000000000000000000199037500000000000000000000000001508063400000000000000000000199025000000000000000000000000001511352100000000000000000000199012500000000000000000000000001504200300000000000000000000199000000000000000000000000000001572739800000000000000000000198987500000000000000000000000001551527600000000000000000000198975000000000000000000000000001393263200000000000000000000198962500000000000000000000000001454031000000000000000000000198950000000000000000000000000001511687100000000000000000000198937500000000000000000000000001548853200000000000000000000198925000000000000000000000000001461766700000000000000000000198912500000000000000000000000001439160100000000000000000000198900000000000000000000000000001469244700000000000000000000198887500000000000000000000000001461354000000000000000000000198875000000000000000000000000002385291300000000000000000000198862500000000000000000000000006528287100000000000000000000198850000000000000000000000000005200608500000000000000000000198837500000000000000000000000001638940300000000000000000000198825000000000000000000000000001547482400000000000000000000198812500000000000000000000000001598024800000000000000000000198800000000000000000000000000001560966200000000000000000000198787500000000000000000000000001533944300000000000000000000198775000000000000000000000000001464523500000000000000000000198762500000000000000000000000001433535000000000000000000000198750000000000000000000000000001609883600000000000000000000198737500000000000000000000000001446610100000000000000000000198725000000000000000000000000001469812300000000000000000000198712500000000000000000000000001574221600000000000000000000198700000000000000000000000000001461152100000000000000000000198687500000000000000000000000001416218300000000000000000000198675000000000000000000000000001453574600000000000000000000198662500000000000000000000000001411692600000000000000000000198650000000000000000000000000001414458300000000000000000000198637500000000000000000000000001616380600000000000000000000198625000000000000000000000000001619042300000000000000000000198612500000000000000000000000001442299000000000000000000000198600000000000000000000,
    1553665200000000000000000000200187500000000000000000000000001538968700000000000000000000200175000000000000000000000000001482568800000000000000000000200162500000000000000000000000001480375900000000000000000000200150000000000000000000000000001552542900000000000000000000200137500000000000000000000000001588582500000000000000000000200125000000000000000000000000001486393500000000000000000000200112500000000000000000000000001343636400000000000000000000200100000000000000000000000000001356795300000000000000000000200087500000000000000000000000001492811100000000000000000000200075000000000000000000000000001535325300000000000000000000200062500000000000000000000000001386538500000000000000000000200050000000000000000000000000001509351100000000000000000000200037500000000000000000000000001718649000000000000000000000200025000000000000000000000000002157314900000000000000000000200012500000000000000000000000002330254800000000000000000000200000000000000000000000000000001870936700000000000000000000199987500000000000000000000000001556523700000000000000000000199975000000000000000000000000001535323300000000000000000000199962500000000000000000000000001567774600000000000000000000199950000000000000000000000000001546274700000000000000000000199937500000000000000000000000001579242600000000000000000000199925000000000000000000000000001627575400000000000000000000199912500000000000000000000000001597135800000000000000000000199900000000000000000000000000001458875400000000000000000000199887500000000000000000000000001486837500000000000000000000199875000000000000000000000000001566815800000000000000000000199862500000000000000000000000001570115900000000000000000000199850000000000000000000000000001489421300000000000000000000199837500000000000000000000000001371055800000000000000000000199825000000000000000000000000001396590500000000000000000000199812500000000000000000000000001331319100000000000000000000199800000000000000000000000000001505397400000000000000000000199787500000000000000000000000001522313600000000000000000000199775000000000000000000000000001540921800000000000000000000199762500000000000000000000000001546110700000000000000000000199750000000000000000000000000001573020600000000000000000000199737500000000000000000000000001581062300000000000000000000199725000000000000000000000000001498199000000000000000000000199712500000000000000000000000001406892900000000000000000000199700000000000000000000000000001545727400000000000000000000199687500000000000000000000000001497566100000000000000000000199675000000000000000000000000001400235800000000000000000000199662500000000000000000000000001487097600000000000000000000199650000000000000000000000000001519952200000000000000000000199637500000000000000000000000001504128400000000000000000000199625000000000000000000000000001434846000000000000000000000199612500000000000000000000000001562338700000000000000000000199600000000000000000000000000001596459000000000000000000000199587500000000000000000000000001575094700000000000000000000199575000000000000000000000000001541206100000000000000000000199562500000000000000000000000001388169800000000000000000000199550000000000000000000000000001467789100000000000000000000199537500000000000000000000000001582046900000000000000000000199525000000000000000000000000001511072800000000000000000000199512500000000000000000000000001461648300000000000000000000199500000000000000000000000000001367633100000000000000000000199487500000000000000000000000001513588200000000000000000000199475000000000000000000000000001656523100000000000000000000199462500000000000000000000000001577674900000000000000000000199450000000000000000000000000001474029200000000000000000000199437500000000000000000000000001437121900000000000000000000199425000000000000000000000000001452443900000000000000000000199412500000000000000000000000001478459300000000000000000000199400000000000000000000,
    1668514800000000000000000000200987500000000000000000000000001560206100000000000000000000200975000000000000000000000000001516007800000000000000000000200962500000000000000000000000001462999400000000000000000000200950000000000000000000000000001487187500000000000000000000200937500000000000000000000000001515282500000000000000000000200925000000000000000000000000001531679200000000000000000000200912500000000000000000000000001500714100000000000000000000200900000000000000000000000000001451452800000000000000000000200887500000000000000000000000001462473000000000000000000000200875000000000000000000000000001569306600000000000000000000200862500000000000000000000000001537858300000000000000000000200850000000000000000000000000001540464900000000000000000000200837500000000000000000000000001430935400000000000000000000200825000000000000000000000000001407038200000000000000000000200812500000000000000000000000001527249500000000000000000000200800000000000000000000000000001503469200000000000000000000200787500000000000000000000000001566870700000000000000000000200775000000000000000000000000001594601200000000000000000000200762500000000000000000000000001529525200000000000000000000200750000000000000000000000000001475956900000000000000000000200737500000000000000000000000001399216900000000000000000000200725000000000000000000000000001316387700000000000000000000200712500000000000000000000000001359747300000000000000000000200700000000000000000000000000001408379600000000000000000000200687500000000000000000000000001359297600000000000000000000200675000000000000000000000000001401953000000000000000000000200662500000000000000000000000001488779100000000000000000000200650000000000000000000000000001589958600000000000000000000200637500000000000000000000000001534533200000000000000000000200625000000000000000000000000001532934100000000000000000000200612500000000000000000000000001483924800000000000000000000200600000000000000000000000000001338778700000000000000000000200587500000000000000000000000001498087400000000000000000000200575000000000000000000000000001532229700000000000000000000200562500000000000000000000000001538450100000000000000000000200550000000000000000000000000001466509600000000000000000000200537500000000000000000000000001340442400000000000000000000200525000000000000000000000000001456231900000000000000000000200512500000000000000000000000001614215700000000000000000000200500000000000000000000000000001569072400000000000000000000200487500000000000000000000000001398192200000000000000000000200475000000000000000000000000001398546600000000000000000000200462500000000000000000000000001450221500000000000000000000200450000000000000000000000000001533534600000000000000000000200437500000000000000000000000001530251900000000000000000000200425000000000000000000000000001621547700000000000000000000200412500000000000000000000000001738630800000000000000000000200400000000000000000000000000001594668300000000000000000000200387500000000000000000000000001533785100000000000000000000200375000000000000000000000000001494491800000000000000000000200362500000000000000000000000001449558600000000000000000000200350000000000000000000000000001473132400000000000000000000200337500000000000000000000000001510005200000000000000000000200325000000000000000000000000001503704100000000000000000000200312500000000000000000000000001611650300000000000000000000200300000000000000000000000000001495689700000000000000000000200287500000000000000000000000001431116900000000000000000000200275000000000000000000000000001619503600000000000000000000200262500000000000000000000000001598481100000000000000000000200250000000000000000000000000001609023900000000000000000000200237500000000000000000000000001581018900000000000000000000200225000000000000000000000000001475547600000000000000000000200212500000000000000000000000001471780900000000000000000000200200000000000000000000,
    1433305300000000000000000000201787500000000000000000000000001403418600000000000000000000201775000000000000000000000000001396666000000000000000000000201762500000000000000000000000001499443100000000000000000000201750000000000000000000000000001439011200000000000000000000201737500000000000000000000000001512517700000000000000000000201725000000000000000000000000001502111200000000000000000000201712500000000000000000000000001502313400000000000000000000201700000000000000000000000000001509901000000000000000000000201687500000000000000000000000001496756400000000000000000000201675000000000000000000000000001539747800000000000000000000201662500000000000000000000000001676091500000000000000000000201650000000000000000000000000001662123400000000000000000000201637500000000000000000000000001459929700000000000000000000201625000000000000000000000000001502489400000000000000000000201612500000000000000000000000001626552700000000000000000000201600000000000000000000000000001472151800000000000000000000201587500000000000000000000000001479117100000000000000000000201575000000000000000000000000001469809300000000000000000000201562500000000000000000000000001381984000000000000000000000201550000000000000000000000000001488408300000000000000000000201537500000000000000000000000001471579300000000000000000000201525000000000000000000000000001584136300000000000000000000201512500000000000000000000000001676535600000000000000000000201500000000000000000000000000001670399200000000000000000000201487500000000000000000000000001601134600000000000000000000201475000000000000000000000000001584342800000000000000000000201462500000000000000000000000001495688700000000000000000000201450000000000000000000000000001530515000000000000000000000201437500000000000000000000000001614674900000000000000000000201425000000000000000000000000001711702400000000000000000000201412500000000000000000000000001613860000000000000000000000201400000000000000000000000000001542949100000000000000000000201387500000000000000000000000001483900900000000000000000000201375000000000000000000000000001592141300000000000000000000201362500000000000000000000000001444921800000000000000000000201350000000000000000000000000001399558200000000000000000000201337500000000000000000000000001447199600000000000000000000201325000000000000000000000000001385658700000000000000000000201312500000000000000000000000001470387300000000000000000000201300000000000000000000000000001482945500000000000000000000201287500000000000000000000000001440655900000000000000000000201275000000000000000000000000001469753700000000000000000000201262500000000000000000000000001460006000000000000000000000201250000000000000000000000000001553411300000000000000000000201237500000000000000000000000001392262000000000000000000000201225000000000000000000000000001412417800000000000000000000201212500000000000000000000000001510102800000000000000000000201200000000000000000000000000001472898600000000000000000000201187500000000000000000000000001559172900000000000000000000201175000000000000000000000000001574753800000000000000000000201162500000000000000000000000001544886800000000000000000000201150000000000000000000000000001533652900000000000000000000201137500000000000000000000000001507040300000000000000000000201125000000000000000000000000001589461000000000000000000000201112500000000000000000000000001627824300000000000000000000201100000000000000000000000000001403978400000000000000000000201087500000000000000000000000001486605900000000000000000000201075000000000000000000000000001581827200000000000000000000201062500000000000000000000000001539880000000000000000000000201050000000000000000000000000001489634700000000000000000000201037500000000000000000000000001478639100000000000000000000201025000000000000000000000000001555129900000000000000000000201012500000000000000000000000001619654200000000000000000000201000000000000000000000,
    1478937700000000000000000000202587500000000000000000000000001503354100000000000000000000202575000000000000000000000000001531509200000000000000000000202562500000000000000000000000001578965500000000000000000000202550000000000000000000000000001513256400000000000000000000202537500000000000000000000000001561830000000000000000000000202525000000000000000000000000001538688900000000000000000000202512500000000000000000000000001561494500000000000000000000202500000000000000000000000000001475429700000000000000000000202487500000000000000000000000001433862600000000000000000000202475000000000000000000000000001461183700000000000000000000202462500000000000000000000000001498165700000000000000000000202450000000000000000000000000001469821800000000000000000000202437500000000000000000000000001438094600000000000000000000202425000000000000000000000000001437740600000000000000000000202412500000000000000000000000001442711400000000000000000000202400000000000000000000000000001395466100000000000000000000202387500000000000000000000000001391006600000000000000000000202375000000000000000000000000001596693000000000000000000000202362500000000000000000000000001722769400000000000000000000202350000000000000000000000000001582520500000000000000000000202337500000000000000000000000001473261900000000000000000000202325000000000000000000000000001511158200000000000000000000202312500000000000000000000000001483203000000000000000000000202300000000000000000000000000001424264900000000000000000000202287500000000000000000000000001502120900000000000000000000202275000000000000000000000000001440799700000000000000000000202262500000000000000000000000001410873900000000000000000000202250000000000000000000000000001616598100000000000000000000202237500000000000000000000000001655033600000000000000000000202225000000000000000000000000001454508900000000000000000000202212500000000000000000000000001522853800000000000000000000202200000000000000000000000000001442450500000000000000000000202187500000000000000000000000001439659800000000000000000000202175000000000000000000000000001484940600000000000000000000202162500000000000000000000000001414327800000000000000000000202150000000000000000000000000001447659100000000000000000000202137500000000000000000000000001565851100000000000000000000202125000000000000000000000000001660654000000000000000000000202112500000000000000000000000001612674400000000000000000000202100000000000000000000000000001472534300000000000000000000202087500000000000000000000000001519836400000000000000000000202075000000000000000000000000001515462300000000000000000000202062500000000000000000000000001512582900000000000000000000202050000000000000000000000000001483634200000000000000000000202037500000000000000000000000001543644400000000000000000000202025000000000000000000000000001451936600000000000000000000202012500000000000000000000000001564044300000000000000000000202000000000000000000000000000001653282800000000000000000000201987500000000000000000000000001543791900000000000000000000201975000000000000000000000000001474395200000000000000000000201962500000000000000000000000001610340000000000000000000000201950000000000000000000000000001486547800000000000000000000201937500000000000000000000000001533052300000000000000000000201925000000000000000000000000001621481900000000000000000000201912500000000000000000000000001580724000000000000000000000201900000000000000000000000000001623264400000000000000000000201887500000000000000000000000001547478900000000000000000000201875000000000000000000000000001544832300000000000000000000201862500000000000000000000000001536385200000000000000000000201850000000000000000000000000001586031900000000000000000000201837500000000000000000000000001712896100000000000000000000201825000000000000000000000000001741523200000000000000000000201812500000000000000000000000001588512800000000000000000000201800000000000000000000,
    1444857800000000000000000000203387500000000000000000000000001489898700000000000000000000203375000000000000000000000000001511353600000000000000000000203362500000000000000000000000001542892600000000000000000000203350000000000000000000000000001548976300000000000000000000203337500000000000000000000000001508167600000000000000000000203325000000000000000000000000001519026500000000000000000000203312500000000000000000000000001450262300000000000000000000203300000000000000000000000000001528570300000000000000000000203287500000000000000000000000001606389800000000000000000000203275000000000000000000000000001528419400000000000000000000203262500000000000000000000000001568594900000000000000000000203250000000000000000000000000001601010800000000000000000000203237500000000000000000000000001516298700000000000000000000203225000000000000000000000000001512577600000000000000000000203212500000000000000000000000001522524900000000000000000000203200000000000000000000000000001568024500000000000000000000203187500000000000000000000000001515124200000000000000000000203175000000000000000000000000001505060600000000000000000000203162500000000000000000000000001520928600000000000000000000203150000000000000000000000000001584665900000000000000000000203137500000000000000000000000001552810000000000000000000000203125000000000000000000000000001524997300000000000000000000203112500000000000000000000000001629635600000000000000000000203100000000000000000000000000001569225100000000000000000000203087500000000000000000000000001501221100000000000000000000203075000000000000000000000000001592316600000000000000000000203062500000000000000000000000001565476900000000000000000000203050000000000000000000000000001516946000000000000000000000203037500000000000000000000000001423269800000000000000000000203025000000000000000000000000001425792400000000000000000000203012500000000000000000000000001542255900000000000000000000203000000000000000000000000000001534376200000000000000000000202987500000000000000000000000001445369100000000000000000000202975000000000000000000000000001476621700000000000000000000202962500000000000000000000000001546464100000000000000000000202950000000000000000000000000001508711600000000000000000000202937500000000000000000000000001531623600000000000000000000202925000000000000000000000000001463337000000000000000000000202912500000000000000000000000001439554500000000000000000000202900000000000000000000000000001593317200000000000000000000202887500000000000000000000000001592883800000000000000000000202875000000000000000000000000001584062400000000000000000000202862500000000000000000000000001459836900000000000000000000202850000000000000000000000000001554893700000000000000000000202837500000000000000000000000001567056600000000000000000000202825000000000000000000000000001698007300000000000000000000202812500000000000000000000000001648173200000000000000000000202800000000000000000000000000001438928700000000000000000000202787500000000000000000000000001528007000000000000000000000202775000000000000000000000000001501111900000000000000000000202762500000000000000000000000001504387500000000000000000000202750000000000000000000000000001479535800000000000000000000202737500000000000000000000000001371384300000000000000000000202725000000000000000000000000001433044800000000000000000000202712500000000000000000000000001427099000000000000000000000202700000000000000000000000000001522074200000000000000000000202687500000000000000000000000001586144500000000000000000000202675000000000000000000000000001493901700000000000000000000202662500000000000000000000000001478377800000000000000000000202650000000000000000000000000001537096500000000000000000000202637500000000000000000000000001554003900000000000000000000202625000000000000000000000000001522887400000000000000000000202612500000000000000000000000001556483900000000000000000000202600000000000000000000,
    1594678600000000000000000000204187500000000000000000000000001707072000000000000000000000204175000000000000000000000000001687033800000000000000000000204162500000000000000000000000001495647700000000000000000000204150000000000000000000000000001455051500000000000000000000204137500000000000000000000000001415702500000000000000000000204125000000000000000000000000001518055700000000000000000000204112500000000000000000000000001624055100000000000000000000204100000000000000000000000000001482600400000000000000000000204087500000000000000000000000001560456900000000000000000000204075000000000000000000000000001649524200000000000000000000204062500000000000000000000000001648787800000000000000000000204050000000000000000000000000001585118300000000000000000000204037500000000000000000000000001541739500000000000000000000204025000000000000000000000000001542208700000000000000000000204012500000000000000000000000001637214200000000000000000000204000000000000000000000000000001612169100000000000000000000203987500000000000000000000000001577270600000000000000000000203975000000000000000000000000001586073000000000000000000000203962500000000000000000000000001524263800000000000000000000203950000000000000000000000000001546914800000000000000000000203937500000000000000000000000001520162300000000000000000000203925000000000000000000000000001525549700000000000000000000203912500000000000000000000000001551256400000000000000000000203900000000000000000000000000001569856000000000000000000000203887500000000000000000000000001565945500000000000000000000203875000000000000000000000000001484853300000000000000000000203862500000000000000000000000001516045800000000000000000000203850000000000000000000000000001595824500000000000000000000203837500000000000000000000000001520681200000000000000000000203825000000000000000000000000001472809600000000000000000000203812500000000000000000000000001460840000000000000000000000203800000000000000000000000000001428253100000000000000000000203787500000000000000000000000001487217900000000000000000000203775000000000000000000000000001560532500000000000000000000203762500000000000000000000000001422988800000000000000000000203750000000000000000000000000001353452700000000000000000000203737500000000000000000000000001610227100000000000000000000203725000000000000000000000000001544427800000000000000000000203712500000000000000000000000001391926800000000000000000000203700000000000000000000000000001395020800000000000000000000203687500000000000000000000000001463123000000000000000000000203675000000000000000000000000001536396900000000000000000000203662500000000000000000000000001470874400000000000000000000203650000000000000000000000000001449621800000000000000000000203637500000000000000000000000001471088400000000000000000000203625000000000000000000000000001515958600000000000000000000203612500000000000000000000000001542360300000000000000000000203600000000000000000000000000001504389600000000000000000000203587500000000000000000000000001404748600000000000000000000203575000000000000000000000000001434387500000000000000000000203562500000000000000000000000001427933100000000000000000000203550000000000000000000000000001540225100000000000000000000203537500000000000000000000000001464533500000000000000000000203525000000000000000000000000001501570300000000000000000000203512500000000000000000000000001586280700000000000000000000203500000000000000000000000000001520592700000000000000000000203487500000000000000000000000001393796900000000000000000000203475000000000000000000000000001559912400000000000000000000203462500000000000000000000000001611556900000000000000000000203450000000000000000000000000001663982400000000000000000000203437500000000000000000000000001523752300000000000000000000203425000000000000000000000000001470729100000000000000000000203412500000000000000000000000001491784400000000000000000000203400000000000000000000,
    1553342000000000000000000000204987500000000000000000000000001530549400000000000000000000204975000000000000000000000000001524302800000000000000000000204962500000000000000000000000001519441800000000000000000000204950000000000000000000000000001570727200000000000000000000204937500000000000000000000000001631434500000000000000000000204925000000000000000000000000001628887700000000000000000000204912500000000000000000000000001656711400000000000000000000204900000000000000000000000000001583776700000000000000000000204887500000000000000000000000001650988300000000000000000000204875000000000000000000000000001468719500000000000000000000204862500000000000000000000000001320834800000000000000000000204850000000000000000000000000001334434500000000000000000000204837500000000000000000000000001446446200000000000000000000204825000000000000000000000000001542658400000000000000000000204812500000000000000000000000001499437300000000000000000000204800000000000000000000000000001436344100000000000000000000204787500000000000000000000000001460161700000000000000000000204775000000000000000000000000001580471100000000000000000000204762500000000000000000000000001596567600000000000000000000204750000000000000000000000000001588601200000000000000000000204737500000000000000000000000001537175600000000000000000000204725000000000000000000000000001551986200000000000000000000204712500000000000000000000000001475612300000000000000000000204700000000000000000000000000001576497100000000000000000000204687500000000000000000000000001564371600000000000000000000204675000000000000000000000000001710414000000000000000000000204662500000000000000000000000001603260700000000000000000000204650000000000000000000000000001409252900000000000000000000204637500000000000000000000000001484263700000000000000000000204625000000000000000000000000001676226500000000000000000000204612500000000000000000000000001627716600000000000000000000204600000000000000000000000000001555174400000000000000000000204587500000000000000000000000001531689200000000000000000000204575000000000000000000000000001505729500000000000000000000204562500000000000000000000000001597740600000000000000000000204550000000000000000000000000001482679900000000000000000000204537500000000000000000000000001484090100000000000000000000204525000000000000000000000000001456950600000000000000000000204512500000000000000000000000001540751900000000000000000000204500000000000000000000000000001574805800000000000000000000204487500000000000000000000000001544017900000000000000000000204475000000000000000000000000001463281600000000000000000000204462500000000000000000000000001623229500000000000000000000204450000000000000000000000000001596284200000000000000000000204437500000000000000000000000001637192700000000000000000000204425000000000000000000000000001621069800000000000000000000204412500000000000000000000000001592900000000000000000000000204400000000000000000000000000001629281300000000000000000000204387500000000000000000000000001505952200000000000000000000204375000000000000000000000000001529348400000000000000000000204362500000000000000000000000001566236000000000000000000000204350000000000000000000000000001471234000000000000000000000204337500000000000000000000000001556873600000000000000000000204325000000000000000000000000001455937500000000000000000000204312500000000000000000000000001443549100000000000000000000204300000000000000000000000000001530014100000000000000000000204287500000000000000000000000001562733600000000000000000000204275000000000000000000000000001624118100000000000000000000204262500000000000000000000000001562983100000000000000000000204250000000000000000000000000001540297400000000000000000000204237500000000000000000000000001515620700000000000000000000204225000000000000000000000000001468838300000000000000000000204212500000000000000000000000001563129700000000000000000000204200000000000000000000,
    1511470000000000000000000000205787500000000000000000000000001488367800000000000000000000205775000000000000000000000000001512626000000000000000000000205762500000000000000000000000001539060900000000000000000000205750000000000000000000000000001625431700000000000000000000205737500000000000000000000000001617809300000000000000000000205725000000000000000000000000001568737500000000000000000000205712500000000000000000000000001568028400000000000000000000205700000000000000000000000000001656797200000000000000000000205687500000000000000000000000001663138100000000000000000000205675000000000000000000000000001495591400000000000000000000205662500000000000000000000000001506996700000000000000000000205650000000000000000000000000001442256200000000000000000000205637500000000000000000000000001375918500000000000000000000205625000000000000000000000000001473071900000000000000000000205612500000000000000000000000001495837200000000000000000000205600000000000000000000000000001579372400000000000000000000205587500000000000000000000000001552568300000000000000000000205575000000000000000000000000001554243600000000000000000000205562500000000000000000000000001496267500000000000000000000205550000000000000000000000000001523249100000000000000000000205537500000000000000000000000001542008500000000000000000000205525000000000000000000000000001700563100000000000000000000205512500000000000000000000000001749900200000000000000000000205500000000000000000000000000001607328900000000000000000000205487500000000000000000000000001633109100000000000000000000205475000000000000000000000000001653571000000000000000000000205462500000000000000000000000001608308000000000000000000000205450000000000000000000000000001592700300000000000000000000205437500000000000000000000000001543120100000000000000000000205425000000000000000000000000001571015300000000000000000000205412500000000000000000000000001457824900000000000000000000205400000000000000000000000000001446428200000000000000000000205387500000000000000000000000001439565100000000000000000000205375000000000000000000000000001458772400000000000000000000205362500000000000000000000000001505635800000000000000000000205350000000000000000000000000001597934700000000000000000000205337500000000000000000000000001798750400000000000000000000205325000000000000000000000000001716441400000000000000000000205312500000000000000000000000001460818500000000000000000000205300000000000000000000000000001457750300000000000000000000205287500000000000000000000000001471361200000000000000000000205275000000000000000000000000001472377800000000000000000000205262500000000000000000000000001482717300000000000000000000205250000000000000000000000000001521438100000000000000000000205237500000000000000000000000001562861300000000000000000000205225000000000000000000000000001568132000000000000000000000205212500000000000000000000000001508608800000000000000000000205200000000000000000000000000001436081300000000000000000000205187500000000000000000000000001417708600000000000000000000205175000000000000000000000000001562993900000000000000000000205162500000000000000000000000001521320700000000000000000000205150000000000000000000000000001393997200000000000000000000205137500000000000000000000000001433626900000000000000000000205125000000000000000000000000001442611900000000000000000000205112500000000000000000000000001505264400000000000000000000205100000000000000000000000000001494289300000000000000000000205087500000000000000000000000001448143100000000000000000000205075000000000000000000000000001523200000000000000000000000205062500000000000000000000000001601327400000000000000000000205050000000000000000000000000001486366800000000000000000000205037500000000000000000000000001594916400000000000000000000205025000000000000000000000000001618432100000000000000000000205012500000000000000000000000001609625500000000000000000000205000000000000000000000,
    1492120300000000000000000000206587500000000000000000000000001547363600000000000000000000206575000000000000000000000000001588739100000000000000000000206562500000000000000000000000001493248400000000000000000000206550000000000000000000000000001428452500000000000000000000206537500000000000000000000000001467301400000000000000000000206525000000000000000000000000001475804700000000000000000000206512500000000000000000000000001483270400000000000000000000206500000000000000000000000000001499477200000000000000000000206487500000000000000000000000001438492700000000000000000000206475000000000000000000000000001448076700000000000000000000206462500000000000000000000000001546821300000000000000000000206450000000000000000000000000001409664900000000000000000000206437500000000000000000000000001412332500000000000000000000206425000000000000000000000000001530001500000000000000000000206412500000000000000000000000001498377600000000000000000000206400000000000000000000000000001525080700000000000000000000206387500000000000000000000000001556738700000000000000000000206375000000000000000000000000001660046200000000000000000000206362500000000000000000000000001507568300000000000000000000206350000000000000000000000000001548915200000000000000000000206337500000000000000000000000001601752000000000000000000000206325000000000000000000000000001593631900000000000000000000206312500000000000000000000000001676030500000000000000000000206300000000000000000000000000001598367000000000000000000000206287500000000000000000000000001571590100000000000000000000206275000000000000000000000000001505177500000000000000000000206262500000000000000000000000001494444100000000000000000000206250000000000000000000000000001578498800000000000000000000206237500000000000000000000000001539632000000000000000000000206225000000000000000000000000001396329200000000000000000000206212500000000000000000000000001501874700000000000000000000206200000000000000000000000000001406538600000000000000000000206187500000000000000000000000001469953200000000000000000000206175000000000000000000000000001481963300000000000000000000206162500000000000000000000000001486122500000000000000000000206150000000000000000000000000001532426100000000000000000000206137500000000000000000000000001551039600000000000000000000206125000000000000000000000000001516603400000000000000000000206112500000000000000000000000001551512600000000000000000000206100000000000000000000000000001588983100000000000000000000206087500000000000000000000000001547231500000000000000000000206075000000000000000000000000001596141700000000000000000000206062500000000000000000000000001693440100000000000000000000206050000000000000000000000000001647074000000000000000000000206037500000000000000000000000001559319200000000000000000000206025000000000000000000000000001598722500000000000000000000206012500000000000000000000000001590904000000000000000000000206000000000000000000000000000001469491800000000000000000000205987500000000000000000000000001350180200000000000000000000205975000000000000000000000000001367161500000000000000000000205962500000000000000000000000001501688100000000000000000000205950000000000000000000000000001485507900000000000000000000205937500000000000000000000000001574079500000000000000000000205925000000000000000000000000001507551400000000000000000000205912500000000000000000000000001418860700000000000000000000205900000000000000000000000000001478967400000000000000000000205887500000000000000000000000001623589800000000000000000000205875000000000000000000000000001614922700000000000000000000205862500000000000000000000000001476628200000000000000000000205850000000000000000000000000001473191400000000000000000000205837500000000000000000000000001512513600000000000000000000205825000000000000000000000000001469071400000000000000000000205812500000000000000000000000001547303800000000000000000000205800000000000000000000,
    1636325100000000000000000000207387500000000000000000000000001609786300000000000000000000207375000000000000000000000000001590456500000000000000000000207362500000000000000000000000001529622800000000000000000000207350000000000000000000000000001550506700000000000000000000207337500000000000000000000000001538715100000000000000000000207325000000000000000000000000001425882900000000000000000000207312500000000000000000000000001527077400000000000000000000207300000000000000000000000000001558606000000000000000000000207287500000000000000000000000001477858300000000000000000000207275000000000000000000000000001576696000000000000000000000207262500000000000000000000000001511027400000000000000000000207250000000000000000000000000001573940000000000000000000000207237500000000000000000000000001618023600000000000000000000207225000000000000000000000000001459477200000000000000000000207212500000000000000000000000001496231800000000000000000000207200000000000000000000000000001504044600000000000000000000207187500000000000000000000000001403349300000000000000000000207175000000000000000000000000001371413900000000000000000000207162500000000000000000000000001328460300000000000000000000207150000000000000000000000000001385860400000000000000000000207137500000000000000000000000001498319800000000000000000000207125000000000000000000000000001569405900000000000000000000207112500000000000000000000000001566827800000000000000000000207100000000000000000000000000001639553800000000000000000000207087500000000000000000000000001567972700000000000000000000207075000000000000000000000000001488510600000000000000000000207062500000000000000000000000001548371200000000000000000000207050000000000000000000000000001632153700000000000000000000207037500000000000000000000000001621027800000000000000000000207025000000000000000000000000001529317900000000000000000000207012500000000000000000000000001414437000000000000000000000207000000000000000000000000000001439159600000000000000000000206987500000000000000000000000001500655500000000000000000000206975000000000000000000000000001528874000000000000000000000206962500000000000000000000000001679894000000000000000000000206950000000000000000000000000001505135300000000000000000000206937500000000000000000000000001496941000000000000000000000206925000000000000000000000000001661581300000000000000000000206912500000000000000000000000001585592900000000000000000000206900000000000000000000000000001576652000000000000000000000206887500000000000000000000000001578155000000000000000000000206875000000000000000000000000001556247300000000000000000000206862500000000000000000000000001570738700000000000000000000206850000000000000000000000000001561044600000000000000000000206837500000000000000000000000001483407100000000000000000000206825000000000000000000000000001724364300000000000000000000206812500000000000000000000000001724969600000000000000000000206800000000000000000000000000001675458700000000000000000000206787500000000000000000000000001505539700000000000000000000206775000000000000000000000000001477569600000000000000000000206762500000000000000000000000001493621300000000000000000000206750000000000000000000000000001554278300000000000000000000206737500000000000000000000000001657332100000000000000000000206725000000000000000000000000001626219800000000000000000000206712500000000000000000000000001698305200000000000000000000206700000000000000000000000000001626842200000000000000000000206687500000000000000000000000001658859800000000000000000000206675000000000000000000000000001589707000000000000000000000206662500000000000000000000000001550761900000000000000000000206650000000000000000000000000001542677700000000000000000000206637500000000000000000000000001584680600000000000000000000206625000000000000000000000000001379928200000000000000000000206612500000000000000000000000001382883000000000000000000000206600000000000000000000,
    1567043100000000000000000000208187500000000000000000000000001630720300000000000000000000208175000000000000000000000000001503029300000000000000000000208162500000000000000000000000001516906800000000000000000000208150000000000000000000000000001557612700000000000000000000208137500000000000000000000000001643122800000000000000000000208125000000000000000000000000001510974900000000000000000000208112500000000000000000000000001468871800000000000000000000208100000000000000000000000000001581055700000000000000000000208087500000000000000000000000001550553400000000000000000000208075000000000000000000000000001505857400000000000000000000208062500000000000000000000000001442866700000000000000000000208050000000000000000000000000001564147600000000000000000000208037500000000000000000000000001531006400000000000000000000208025000000000000000000000000001599890500000000000000000000208012500000000000000000000000001583330400000000000000000000208000000000000000000000000000001595215400000000000000000000207987500000000000000000000000001701580200000000000000000000207975000000000000000000000000001549760500000000000000000000207962500000000000000000000000001571571700000000000000000000207950000000000000000000000000001632788000000000000000000000207937500000000000000000000000001556975800000000000000000000207925000000000000000000000000001559972400000000000000000000207912500000000000000000000000001570483300000000000000000000207900000000000000000000000000001572749300000000000000000000207887500000000000000000000000001599706100000000000000000000207875000000000000000000000000001611017200000000000000000000207862500000000000000000000000001729470800000000000000000000207850000000000000000000000000001603919900000000000000000000207837500000000000000000000000001487697300000000000000000000207825000000000000000000000000001513718200000000000000000000207812500000000000000000000000001386904600000000000000000000207800000000000000000000000000001362595000000000000000000000207787500000000000000000000000001503862500000000000000000000207775000000000000000000000000001672204400000000000000000000207762500000000000000000000000001599509400000000000000000000207750000000000000000000000000001590889300000000000000000000207737500000000000000000000000001505363300000000000000000000207725000000000000000000000000001525451500000000000000000000207712500000000000000000000000001574602200000000000000000000207700000000000000000000000000001562237200000000000000000000207687500000000000000000000000001618904800000000000000000000207675000000000000000000000000001676614300000000000000000000207662500000000000000000000000001611546600000000000000000000207650000000000000000000000000001511727800000000000000000000207637500000000000000000000000001531065200000000000000000000207625000000000000000000000000001393889400000000000000000000207612500000000000000000000000001405438600000000000000000000207600000000000000000000000000001592773400000000000000000000207587500000000000000000000000001537739100000000000000000000207575000000000000000000000000001537868500000000000000000000207562500000000000000000000000001556959600000000000000000000207550000000000000000000000000001585363000000000000000000000207537500000000000000000000000001544085400000000000000000000207525000000000000000000000000001561718200000000000000000000207512500000000000000000000000001510504000000000000000000000207500000000000000000000000000001581719800000000000000000000207487500000000000000000000000001745733100000000000000000000207475000000000000000000000000001701907800000000000000000000207462500000000000000000000000001580651500000000000000000000207450000000000000000000000000001513430100000000000000000000207437500000000000000000000000001473724200000000000000000000207425000000000000000000000000001419288700000000000000000000207412500000000000000000000000001530599800000000000000000000207400000000000000000000,
    1523041200000000000000000000208987500000000000000000000000001550688300000000000000000000208975000000000000000000000000001474230900000000000000000000208962500000000000000000000000001584814200000000000000000000208950000000000000000000000000001663675700000000000000000000208937500000000000000000000000001621102100000000000000000000208925000000000000000000000000001468504200000000000000000000208912500000000000000000000000001605445700000000000000000000208900000000000000000000000000001684371800000000000000000000208887500000000000000000000000001704851300000000000000000000208875000000000000000000000000001623946600000000000000000000208862500000000000000000000000001570208100000000000000000000208850000000000000000000000000001509466000000000000000000000208837500000000000000000000000001567977600000000000000000000208825000000000000000000000000001608086100000000000000000000208812500000000000000000000000001613739400000000000000000000208800000000000000000000000000001502408800000000000000000000208787500000000000000000000000001555186800000000000000000000208775000000000000000000000000001456241400000000000000000000208762500000000000000000000000001546463500000000000000000000208750000000000000000000000000001668754500000000000000000000208737500000000000000000000000001627683500000000000000000000208725000000000000000000000000001545314900000000000000000000208712500000000000000000000000001534187500000000000000000000208700000000000000000000000000001580655700000000000000000000208687500000000000000000000000001555202000000000000000000000208675000000000000000000000000001543551000000000000000000000208662500000000000000000000000001513374800000000000000000000208650000000000000000000000000001752023900000000000000000000208637500000000000000000000000001755383100000000000000000000208625000000000000000000000000001547191500000000000000000000208612500000000000000000000000001549116800000000000000000000208600000000000000000000000000001565057700000000000000000000208587500000000000000000000000001472274000000000000000000000208575000000000000000000000000001572053600000000000000000000208562500000000000000000000000001724117700000000000000000000208550000000000000000000000000001662093500000000000000000000208537500000000000000000000000001583907500000000000000000000208525000000000000000000000000001525676600000000000000000000208512500000000000000000000000001504019500000000000000000000208500000000000000000000000000001592481800000000000000000000208487500000000000000000000000001612708100000000000000000000208475000000000000000000000000001472455100000000000000000000208462500000000000000000000000001306271500000000000000000000208450000000000000000000000000001482221500000000000000000000208437500000000000000000000000001558110200000000000000000000208425000000000000000000000000001488342100000000000000000000208412500000000000000000000000001344511800000000000000000000208400000000000000000000000000001448979800000000000000000000208387500000000000000000000000001494557800000000000000000000208375000000000000000000000000001562087600000000000000000000208362500000000000000000000000001500414600000000000000000000208350000000000000000000000000001415703000000000000000000000208337500000000000000000000000001537823600000000000000000000208325000000000000000000000000001574793700000000000000000000208312500000000000000000000000001492037700000000000000000000208300000000000000000000000000001659238400000000000000000000208287500000000000000000000000001567082800000000000000000000208275000000000000000000000000001627319000000000000000000000208262500000000000000000000000001555499200000000000000000000208250000000000000000000000000001518334000000000000000000000208237500000000000000000000000001395886400000000000000000000208225000000000000000000000000001454229900000000000000000000208212500000000000000000000000001617716700000000000000000000208200000000000000000000,
    1658432100000000000000000000209787500000000000000000000000001486225100000000000000000000209775000000000000000000000000001626518700000000000000000000209762500000000000000000000000001612912100000000000000000000209750000000000000000000000000001625814000000000000000000000209737500000000000000000000000001612748200000000000000000000209725000000000000000000000000001581534800000000000000000000209712500000000000000000000000001528319100000000000000000000209700000000000000000000000000001679538900000000000000000000209687500000000000000000000000001510573200000000000000000000209675000000000000000000000000001557887900000000000000000000209662500000000000000000000000001742454700000000000000000000209650000000000000000000000000001572062400000000000000000000209637500000000000000000000000001630430900000000000000000000209625000000000000000000000000001585214100000000000000000000209612500000000000000000000000001457277100000000000000000000209600000000000000000000000000001544597900000000000000000000209587500000000000000000000000001582504800000000000000000000209575000000000000000000000000001531272000000000000000000000209562500000000000000000000000001452791800000000000000000000209550000000000000000000000000001476764300000000000000000000209537500000000000000000000000001566096100000000000000000000209525000000000000000000000000001418934100000000000000000000209512500000000000000000000000001412190600000000000000000000209500000000000000000000000000001503941800000000000000000000209487500000000000000000000000001544663300000000000000000000209475000000000000000000000000001585566300000000000000000000209462500000000000000000000000001727782300000000000000000000209450000000000000000000000000001650922800000000000000000000209437500000000000000000000000001665569700000000000000000000209425000000000000000000000000001791469300000000000000000000209412500000000000000000000000001616892800000000000000000000209400000000000000000000000000001458240200000000000000000000209387500000000000000000000000001418487800000000000000000000209375000000000000000000000000001552733300000000000000000000209362500000000000000000000000001699835900000000000000000000209350000000000000000000000000001619545700000000000000000000209337500000000000000000000000001527806100000000000000000000209325000000000000000000000000001459836000000000000000000000209312500000000000000000000000001601563500000000000000000000209300000000000000000000000000001593587100000000000000000000209287500000000000000000000000001470501700000000000000000000209275000000000000000000000000001468805200000000000000000000209262500000000000000000000000001677803300000000000000000000209250000000000000000000000000001570258800000000000000000000209237500000000000000000000000001570936500000000000000000000209225000000000000000000000000001605234700000000000000000000209212500000000000000000000000001566628400000000000000000000209200000000000000000000000000001530827000000000000000000000209187500000000000000000000000001607119900000000000000000000209175000000000000000000000000001667807600000000000000000000209162500000000000000000000000001589393200000000000000000000209150000000000000000000000000001676936500000000000000000000209137500000000000000000000000001620289900000000000000000000209125000000000000000000000000001634751400000000000000000000209112500000000000000000000000001605407400000000000000000000209100000000000000000000000000001575926500000000000000000000209087500000000000000000000000001707572800000000000000000000209075000000000000000000000000001741352800000000000000000000209062500000000000000000000000001711535400000000000000000000209050000000000000000000000000001646970700000000000000000000209037500000000000000000000000001493626500000000000000000000209025000000000000000000000000001570097800000000000000000000209012500000000000000000000000001549643400000000000000000000209000000000000000000000,
    1605148500000000000000000000210587500000000000000000000000001477916300000000000000000000210575000000000000000000000000001693157200000000000000000000210562500000000000000000000000001680343800000000000000000000210550000000000000000000000000001632217300000000000000000000210537500000000000000000000000001704436000000000000000000000210525000000000000000000000000001690921000000000000000000000210512500000000000000000000000001594458700000000000000000000210500000000000000000000000000001589537100000000000000000000210487500000000000000000000000001674335600000000000000000000210475000000000000000000000000001675205200000000000000000000210462500000000000000000000000001604012700000000000000000000210450000000000000000000000000001529564700000000000000000000210437500000000000000000000000001590795000000000000000000000210425000000000000000000000000001602591600000000000000000000210412500000000000000000000000001544093400000000000000000000210400000000000000000000000000001707007500000000000000000000210387500000000000000000000000001722752700000000000000000000210375000000000000000000000000001685190300000000000000000000210362500000000000000000000000001621383400000000000000000000210350000000000000000000000000001521855300000000000000000000210337500000000000000000000000001515645400000000000000000000210325000000000000000000000000001527874100000000000000000000210312500000000000000000000000001619068300000000000000000000210300000000000000000000000000001566713500000000000000000000210287500000000000000000000000001599470100000000000000000000210275000000000000000000000000001605774600000000000000000000210262500000000000000000000000001468138000000000000000000000210250000000000000000000000000001489803200000000000000000000210237500000000000000000000000001600722200000000000000000000210225000000000000000000000000001443083000000000000000000000210212500000000000000000000000001392061000000000000000000000210200000000000000000000000000001531498100000000000000000000210187500000000000000000000000001699685200000000000000000000210175000000000000000000000000001666946100000000000000000000210162500000000000000000000000001658198100000000000000000000210150000000000000000000000000001722756100000000000000000000210137500000000000000000000000001643392500000000000000000000210125000000000000000000000000001562339300000000000000000000210112500000000000000000000000001590443800000000000000000000210100000000000000000000000000001631508500000000000000000000210087500000000000000000000000001487127500000000000000000000210075000000000000000000000000001500043800000000000000000000210062500000000000000000000000001628892200000000000000000000210050000000000000000000000000001654162600000000000000000000210037500000000000000000000000001597090700000000000000000000210025000000000000000000000000001594201300000000000000000000210012500000000000000000000000001582290100000000000000000000210000000000000000000000000000001579383000000000000000000000209987500000000000000000000000001579020200000000000000000000209975000000000000000000000000001645530700000000000000000000209962500000000000000000000000001630101000000000000000000000209950000000000000000000000000001652128800000000000000000000209937500000000000000000000000001556949900000000000000000000209925000000000000000000000000001571135700000000000000000000209912500000000000000000000000001516114700000000000000000000209900000000000000000000000000001500811800000000000000000000209887500000000000000000000000001429130500000000000000000000209875000000000000000000000000001466546100000000000000000000209862500000000000000000000000001570936900000000000000000000209850000000000000000000000000001572108400000000000000000000209837500000000000000000000000001441394200000000000000000000209825000000000000000000000000001475740600000000000000000000209812500000000000000000000000001643258200000000000000000000209800000000000000000000,
    1683505300000000000000000000211387500000000000000000000000001556156700000000000000000000211375000000000000000000000000001469786000000000000000000000211362500000000000000000000000001514559300000000000000000000211350000000000000000000000000001662115800000000000000000000211337500000000000000000000000001688743800000000000000000000211325000000000000000000000000001597261900000000000000000000211312500000000000000000000000001544732400000000000000000000211300000000000000000000000000001628356500000000000000000000211287500000000000000000000000001598265700000000000000000000211275000000000000000000000000001616294500000000000000000000211262500000000000000000000000001683996200000000000000000000211250000000000000000000000000001645151500000000000000000000211237500000000000000000000000001639220800000000000000000000211225000000000000000000000000001530891100000000000000000000211212500000000000000000000000001488911300000000000000000000211200000000000000000000000000001521923000000000000000000000211187500000000000000000000000001602569900000000000000000000211175000000000000000000000000001597647700000000000000000000211162500000000000000000000000001597297200000000000000000000211150000000000000000000000000001586598800000000000000000000211137500000000000000000000000001669452900000000000000000000211125000000000000000000000000001757573400000000000000000000211112500000000000000000000000001763016400000000000000000000211100000000000000000000000000001634377800000000000000000000211087500000000000000000000000001489659300000000000000000000211075000000000000000000000000001552546000000000000000000000211062500000000000000000000000001494478000000000000000000000211050000000000000000000000000001505033000000000000000000000211037500000000000000000000000001591677000000000000000000000211025000000000000000000000000001582221100000000000000000000211012500000000000000000000000001562717600000000000000000000211000000000000000000000000000001477971600000000000000000000210987500000000000000000000000001484637400000000000000000000210975000000000000000000000000001565054300000000000000000000210962500000000000000000000000001689810100000000000000000000210950000000000000000000000000001721232700000000000000000000210937500000000000000000000000001698898800000000000000000000210925000000000000000000000000001571636500000000000000000000210912500000000000000000000000001605483800000000000000000000210900000000000000000000000000001529318900000000000000000000210887500000000000000000000000001637784200000000000000000000210875000000000000000000000000001702481600000000000000000000210862500000000000000000000000001512441400000000000000000000210850000000000000000000000000001571363500000000000000000000210837500000000000000000000000001513127800000000000000000000210825000000000000000000000000001529112500000000000000000000210812500000000000000000000000001704612900000000000000000000210800000000000000000000000000001614276700000000000000000000210787500000000000000000000000001481618300000000000000000000210775000000000000000000000000001530939000000000000000000000210762500000000000000000000000001609632200000000000000000000210750000000000000000000000000001502406600000000000000000000210737500000000000000000000000001513213000000000000000000000210725000000000000000000000000001558728100000000000000000000210712500000000000000000000000001627156800000000000000000000210700000000000000000000000000001642787000000000000000000000210687500000000000000000000000001635946000000000000000000000210675000000000000000000000000001676150500000000000000000000210662500000000000000000000000001615284800000000000000000000210650000000000000000000000000001632372800000000000000000000210637500000000000000000000000001535773400000000000000000000210625000000000000000000000000001449554400000000000000000000210612500000000000000000000000001615851700000000000000000000210600000000000000000000,
    1628359500000000000000000000212187500000000000000000000000001545853400000000000000000000212175000000000000000000000000001562578300000000000000000000212162500000000000000000000000001674641200000000000000000000212150000000000000000000000000001648906300000000000000000000212137500000000000000000000000001467870000000000000000000000212125000000000000000000000000001559084400000000000000000000212112500000000000000000000000001610047300000000000000000000212100000000000000000000000000001511634200000000000000000000212087500000000000000000000000001601095700000000000000000000212075000000000000000000000000001515160100000000000000000000212062500000000000000000000000001579170700000000000000000000212050000000000000000000000000001680839700000000000000000000212037500000000000000000000000001634531900000000000000000000212025000000000000000000000000001606156600000000000000000000212012500000000000000000000000001602524700000000000000000000212000000000000000000000000000001602739100000000000000000000211987500000000000000000000000001591587400000000000000000000211975000000000000000000000000001447163000000000000000000000211962500000000000000000000000001534682200000000000000000000211950000000000000000000000000001582790200000000000000000000211937500000000000000000000000001622064500000000000000000000211925000000000000000000000000001648061700000000000000000000211912500000000000000000000000001552645000000000000000000000211900000000000000000000000000001451019700000000000000000000211887500000000000000000000000001492978100000000000000000000211875000000000000000000000000001476117100000000000000000000211862500000000000000000000000001571184400000000000000000000211850000000000000000000000000001619901800000000000000000000211837500000000000000000000000001562998500000000000000000000211825000000000000000000000000001540959500000000000000000000211812500000000000000000000000001584651700000000000000000000211800000000000000000000000000001697262700000000000000000000211787500000000000000000000000001629352200000000000000000000211775000000000000000000000000001545031900000000000000000000211762500000000000000000000000001518833900000000000000000000211750000000000000000000000000001481544500000000000000000000211737500000000000000000000000001598567800000000000000000000211725000000000000000000000000001524728100000000000000000000211712500000000000000000000000001502100500000000000000000000211700000000000000000000000000001652529400000000000000000000211687500000000000000000000000001644951600000000000000000000211675000000000000000000000000001512552600000000000000000000211662500000000000000000000000001585645500000000000000000000211650000000000000000000000000001569391700000000000000000000211637500000000000000000000000001561237700000000000000000000211625000000000000000000000000001476026800000000000000000000211612500000000000000000000000001502530300000000000000000000211600000000000000000000000000001766412700000000000000000000211587500000000000000000000000001758327600000000000000000000211575000000000000000000000000001629985500000000000000000000211562500000000000000000000000001481036200000000000000000000211550000000000000000000000000001467440700000000000000000000211537500000000000000000000000001498645400000000000000000000211525000000000000000000000000001548526000000000000000000000211512500000000000000000000000001562930600000000000000000000211500000000000000000000000000001553759800000000000000000000211487500000000000000000000000001757187800000000000000000000211475000000000000000000000000001672493400000000000000000000211462500000000000000000000000001593143200000000000000000000211450000000000000000000000000001469357900000000000000000000211437500000000000000000000000001717851200000000000000000000211425000000000000000000000000001833812300000000000000000000211412500000000000000000000000001653392100000000000000000000211400000000000000000000,
    1589205700000000000000000000212987500000000000000000000000001581225000000000000000000000212975000000000000000000000000001587764200000000000000000000212962500000000000000000000000001638178100000000000000000000212950000000000000000000000000001669180300000000000000000000212937500000000000000000000000001669461200000000000000000000212925000000000000000000000000001530179700000000000000000000212912500000000000000000000000001463893600000000000000000000212900000000000000000000000000001576974100000000000000000000212887500000000000000000000000001716544700000000000000000000212875000000000000000000000000001718510700000000000000000000212862500000000000000000000000001610852500000000000000000000212850000000000000000000000000001639732500000000000000000000212837500000000000000000000000001648547200000000000000000000212825000000000000000000000000001579959900000000000000000000212812500000000000000000000000001573400800000000000000000000212800000000000000000000000000001704385300000000000000000000212787500000000000000000000000001685222600000000000000000000212775000000000000000000000000001500372800000000000000000000212762500000000000000000000000001621643200000000000000000000212750000000000000000000000000001626243400000000000000000000212737500000000000000000000000001607543600000000000000000000212725000000000000000000000000001512966200000000000000000000212712500000000000000000000000001517900800000000000000000000212700000000000000000000000000001513976800000000000000000000212687500000000000000000000000001528267600000000000000000000212675000000000000000000000000001433696600000000000000000000212662500000000000000000000000001492418200000000000000000000212650000000000000000000000000001461866500000000000000000000212637500000000000000000000000001625344900000000000000000000212625000000000000000000000000001601460500000000000000000000212612500000000000000000000000001557695000000000000000000000212600000000000000000000000000001624119700000000000000000000212587500000000000000000000000001519577300000000000000000000212575000000000000000000000000001490306800000000000000000000212562500000000000000000000000001626677500000000000000000000212550000000000000000000000000001591604700000000000000000000212537500000000000000000000000001613477000000000000000000000212525000000000000000000000000001678764000000000000000000000212512500000000000000000000000001579748000000000000000000000212500000000000000000000000000001541133400000000000000000000212487500000000000000000000000001504728100000000000000000000212475000000000000000000000000001463456100000000000000000000212462500000000000000000000000001505322400000000000000000000212450000000000000000000000000001569334400000000000000000000212437500000000000000000000000001650321700000000000000000000212425000000000000000000000000001533964000000000000000000000212412500000000000000000000000001596423300000000000000000000212400000000000000000000000000001597283300000000000000000000212387500000000000000000000000001572866000000000000000000000212375000000000000000000000000001628684000000000000000000000212362500000000000000000000000001505864800000000000000000000212350000000000000000000000000001605889800000000000000000000212337500000000000000000000000001493734200000000000000000000212325000000000000000000000000001528027900000000000000000000212312500000000000000000000000001663231300000000000000000000212300000000000000000000000000001608950100000000000000000000212287500000000000000000000000001611679700000000000000000000212275000000000000000000000000001603350600000000000000000000212262500000000000000000000000001483327600000000000000000000212250000000000000000000000000001450181900000000000000000000212237500000000000000000000000001461762300000000000000000000212225000000000000000000000000001621735800000000000000000000212212500000000000000000000000001744345700000000000000000000212200000000000000000000,
    1497352800000000000000000000213787500000000000000000000000001703892400000000000000000000213775000000000000000000000000001609075100000000000000000000213762500000000000000000000000001654088700000000000000000000213750000000000000000000000000001672522800000000000000000000213737500000000000000000000000001687969000000000000000000000213725000000000000000000000000001631789300000000000000000000213712500000000000000000000000001594530000000000000000000000213700000000000000000000000000001622245200000000000000000000213687500000000000000000000000001486685800000000000000000000213675000000000000000000000000001392340100000000000000000000213662500000000000000000000000001478148900000000000000000000213650000000000000000000000000001642092100000000000000000000213637500000000000000000000000001537490800000000000000000000213625000000000000000000000000001396473300000000000000000000213612500000000000000000000000001514662500000000000000000000213600000000000000000000000000001649402500000000000000000000213587500000000000000000000000001571524800000000000000000000213575000000000000000000000000001516623600000000000000000000213562500000000000000000000000001577687800000000000000000000213550000000000000000000000000001626802700000000000000000000213537500000000000000000000000001629366100000000000000000000213525000000000000000000000000001500896700000000000000000000213512500000000000000000000000001396272600000000000000000000213500000000000000000000000000001665834600000000000000000000213487500000000000000000000000001710717500000000000000000000213475000000000000000000000000001634406600000000000000000000213462500000000000000000000000001563127700000000000000000000213450000000000000000000000000001574990600000000000000000000213437500000000000000000000000001607250900000000000000000000213425000000000000000000000000001562862400000000000000000000213412500000000000000000000000001609794000000000000000000000213400000000000000000000000000001698750300000000000000000000213387500000000000000000000000001701534500000000000000000000213375000000000000000000000000001708479000000000000000000000213362500000000000000000000000001642491900000000000000000000213350000000000000000000000000001605668700000000000000000000213337500000000000000000000000001594498300000000000000000000213325000000000000000000000000001528245900000000000000000000213312500000000000000000000000001510649700000000000000000000213300000000000000000000000000001481699800000000000000000000213287500000000000000000000000001622403400000000000000000000213275000000000000000000000000001617200800000000000000000000213262500000000000000000000000001685191000000000000000000000213250000000000000000000000000001623688200000000000000000000213237500000000000000000000000001505660500000000000000000000213225000000000000000000000000001564428000000000000000000000213212500000000000000000000000001491188400000000000000000000213200000000000000000000000000001546182000000000000000000000213187500000000000000000000000001519702900000000000000000000213175000000000000000000000000001527472000000000000000000000213162500000000000000000000000001544148900000000000000000000213150000000000000000000000000001539388500000000000000000000213137500000000000000000000000001570186700000000000000000000213125000000000000000000000000001588899200000000000000000000213112500000000000000000000000001563785500000000000000000000213100000000000000000000000000001478538700000000000000000000213087500000000000000000000000001594138600000000000000000000213075000000000000000000000000001573259300000000000000000000213062500000000000000000000000001542538700000000000000000000213050000000000000000000000000001656575000000000000000000000213037500000000000000000000000001561279500000000000000000000213025000000000000000000000000001523129000000000000000000000213012500000000000000000000000001644867100000000000000000000213000000000000000000000,
    1551512800000000000000000000214587500000000000000000000000001455282300000000000000000000214575000000000000000000000000001363933300000000000000000000214562500000000000000000000000001519177200000000000000000000214550000000000000000000000000001646790000000000000000000000214537500000000000000000000000001654495200000000000000000000214525000000000000000000000000001656171600000000000000000000214512500000000000000000000000001561624600000000000000000000214500000000000000000000000000001579188000000000000000000000214487500000000000000000000000001608302100000000000000000000214475000000000000000000000000001722817200000000000000000000214462500000000000000000000000001774443900000000000000000000214450000000000000000000000000001627752100000000000000000000214437500000000000000000000000001555318500000000000000000000214425000000000000000000000000001610867600000000000000000000214412500000000000000000000000001636528500000000000000000000214400000000000000000000000000001718579100000000000000000000214387500000000000000000000000001665263600000000000000000000214375000000000000000000000000001650798000000000000000000000214362500000000000000000000000001594718600000000000000000000214350000000000000000000000000001579399200000000000000000000214337500000000000000000000000001568612500000000000000000000214325000000000000000000000000001633899200000000000000000000214312500000000000000000000000001460996400000000000000000000214300000000000000000000000000001554029700000000000000000000214287500000000000000000000000001672125200000000000000000000214275000000000000000000000000001526277300000000000000000000214262500000000000000000000000001656128900000000000000000000214250000000000000000000000000001503623500000000000000000000214237500000000000000000000000001495402800000000000000000000214225000000000000000000000000001549746700000000000000000000214212500000000000000000000000001537690200000000000000000000214200000000000000000000000000001647447800000000000000000000214187500000000000000000000000001673704100000000000000000000214175000000000000000000000000001585479300000000000000000000214162500000000000000000000000001624494500000000000000000000214150000000000000000000000000001534793900000000000000000000214137500000000000000000000000001485856700000000000000000000214125000000000000000000000000001492721000000000000000000000214112500000000000000000000000001654151500000000000000000000214100000000000000000000000000001775884600000000000000000000214087500000000000000000000000001736850700000000000000000000214075000000000000000000000000001683959200000000000000000000214062500000000000000000000000001620205600000000000000000000214050000000000000000000000000001486573700000000000000000000214037500000000000000000000000001423893100000000000000000000214025000000000000000000000000001611711600000000000000000000214012500000000000000000000000001537453900000000000000000000214000000000000000000000000000001454517600000000000000000000213987500000000000000000000000001612473300000000000000000000213975000000000000000000000000001544987700000000000000000000213962500000000000000000000000001499913700000000000000000000213950000000000000000000000000001474973200000000000000000000213937500000000000000000000000001534260800000000000000000000213925000000000000000000000000001598165600000000000000000000213912500000000000000000000000001548297400000000000000000000213900000000000000000000000000001585785200000000000000000000213887500000000000000000000000001508979100000000000000000000213875000000000000000000000000001583649000000000000000000000213862500000000000000000000000001552542200000000000000000000213850000000000000000000000000001639988200000000000000000000213837500000000000000000000000001728889500000000000000000000213825000000000000000000000000001637019500000000000000000000213812500000000000000000000000001542062800000000000000000000213800000000000000000000,
    1562358900000000000000000000215387500000000000000000000000001545651300000000000000000000215375000000000000000000000000001681384500000000000000000000215362500000000000000000000000001705432400000000000000000000215350000000000000000000000000001655402600000000000000000000215337500000000000000000000000001578713700000000000000000000215325000000000000000000000000001633062100000000000000000000215312500000000000000000000000001585827800000000000000000000215300000000000000000000000000001534284400000000000000000000215287500000000000000000000000001676549700000000000000000000215275000000000000000000000000001730155900000000000000000000215262500000000000000000000000001692912500000000000000000000215250000000000000000000000000001623970000000000000000000000215237500000000000000000000000001553135800000000000000000000215225000000000000000000000000001539907200000000000000000000215212500000000000000000000000001502031100000000000000000000215200000000000000000000000000001573981600000000000000000000215187500000000000000000000000001616329400000000000000000000215175000000000000000000000000001668911500000000000000000000215162500000000000000000000000001529891000000000000000000000215150000000000000000000000000001579489600000000000000000000215137500000000000000000000000001627188400000000000000000000215125000000000000000000000000001656178200000000000000000000215112500000000000000000000000001593278500000000000000000000215100000000000000000000000000001640748500000000000000000000215087500000000000000000000000001641843300000000000000000000215075000000000000000000000000001570097900000000000000000000215062500000000000000000000000001594575400000000000000000000215050000000000000000000000000001545712500000000000000000000215037500000000000000000000000001556128600000000000000000000215025000000000000000000000000001527533400000000000000000000215012500000000000000000000000001588361000000000000000000000215000000000000000000000000000001688496300000000000000000000214987500000000000000000000000001519194700000000000000000000214975000000000000000000000000001511292700000000000000000000214962500000000000000000000000001530453200000000000000000000214950000000000000000000000000001562911200000000000000000000214937500000000000000000000000001589322300000000000000000000214925000000000000000000000000001589687300000000000000000000214912500000000000000000000000001650398400000000000000000000214900000000000000000000000000001571840600000000000000000000214887500000000000000000000000001493933800000000000000000000214875000000000000000000000000001470277600000000000000000000214862500000000000000000000000001519364200000000000000000000214850000000000000000000000000001484648900000000000000000000214837500000000000000000000000001560506300000000000000000000214825000000000000000000000000001614757300000000000000000000214812500000000000000000000000001539651200000000000000000000214800000000000000000000000000001590463600000000000000000000214787500000000000000000000000001738352800000000000000000000214775000000000000000000000000001620273000000000000000000000214762500000000000000000000000001587578400000000000000000000214750000000000000000000000000001639274100000000000000000000214737500000000000000000000000001580262200000000000000000000214725000000000000000000000000001796412200000000000000000000214712500000000000000000000000001802361300000000000000000000214700000000000000000000000000001652369800000000000000000000214687500000000000000000000000001479609400000000000000000000214675000000000000000000000000001454909400000000000000000000214662500000000000000000000000001524195700000000000000000000214650000000000000000000000000001620814600000000000000000000214637500000000000000000000000001558769400000000000000000000214625000000000000000000000000001474194700000000000000000000214612500000000000000000000000001445600000000000000000000000214600000000000000000000,
    1506581300000000000000000000216187500000000000000000000000001546039000000000000000000000216175000000000000000000000000001655996600000000000000000000216162500000000000000000000000001632609800000000000000000000216150000000000000000000000000001614196300000000000000000000216137500000000000000000000000001697619500000000000000000000216125000000000000000000000000001606773600000000000000000000216112500000000000000000000000001454389100000000000000000000216100000000000000000000000000001572808600000000000000000000216087500000000000000000000000001623453600000000000000000000216075000000000000000000000000001711109500000000000000000000216062500000000000000000000000001562738900000000000000000000216050000000000000000000000000001567977200000000000000000000216037500000000000000000000000001596559400000000000000000000216025000000000000000000000000001543932600000000000000000000216012500000000000000000000000001504920000000000000000000000216000000000000000000000000000001505535100000000000000000000215987500000000000000000000000001606447400000000000000000000215975000000000000000000000000001490703800000000000000000000215962500000000000000000000000001552499500000000000000000000215950000000000000000000000000001529689900000000000000000000215937500000000000000000000000001493641500000000000000000000215925000000000000000000000000001568458500000000000000000000215912500000000000000000000000001701387000000000000000000000215900000000000000000000000000001625882000000000000000000000215887500000000000000000000000001632885600000000000000000000215875000000000000000000000000001677780300000000000000000000215862500000000000000000000000001627891300000000000000000000215850000000000000000000000000001641485100000000000000000000215837500000000000000000000000001566844000000000000000000000215825000000000000000000000000001542063000000000000000000000215812500000000000000000000000001549201800000000000000000000215800000000000000000000000000001447220300000000000000000000215787500000000000000000000000001409251900000000000000000000215775000000000000000000000000001521978900000000000000000000215762500000000000000000000000001506495500000000000000000000215750000000000000000000000000001610469200000000000000000000215737500000000000000000000000001689073300000000000000000000215725000000000000000000000000001615307700000000000000000000215712500000000000000000000000001658527700000000000000000000215700000000000000000000000000001526044400000000000000000000215687500000000000000000000000001562523900000000000000000000215675000000000000000000000000001528129100000000000000000000215662500000000000000000000000001488043800000000000000000000215650000000000000000000000000001595789600000000000000000000215637500000000000000000000000001624750400000000000000000000215625000000000000000000000000001522415700000000000000000000215612500000000000000000000000001507625800000000000000000000215600000000000000000000000000001695408600000000000000000000215587500000000000000000000000001661894800000000000000000000215575000000000000000000000000001657470500000000000000000000215562500000000000000000000000001745778400000000000000000000215550000000000000000000000000001689457500000000000000000000215537500000000000000000000000001504033200000000000000000000215525000000000000000000000000001512407000000000000000000000215512500000000000000000000000001441483200000000000000000000215500000000000000000000000000001532884300000000000000000000215487500000000000000000000000001579660400000000000000000000215475000000000000000000000000001615950800000000000000000000215462500000000000000000000000001647515200000000000000000000215450000000000000000000000000001607952200000000000000000000215437500000000000000000000000001667843100000000000000000000215425000000000000000000000000001708626900000000000000000000215412500000000000000000000000001719383700000000000000000000215400000000000000000000,
    1651047800000000000000000000216987500000000000000000000000001642508100000000000000000000216975000000000000000000000000001593379000000000000000000000216962500000000000000000000000001695141100000000000000000000216950000000000000000000000000001749437200000000000000000000216937500000000000000000000000001606272400000000000000000000216925000000000000000000000000001514882700000000000000000000216912500000000000000000000000001563038400000000000000000000216900000000000000000000000000001577292300000000000000000000216887500000000000000000000000001459518900000000000000000000216875000000000000000000000000001570127700000000000000000000216862500000000000000000000000001610473200000000000000000000216850000000000000000000000000001635713600000000000000000000216837500000000000000000000000001585872800000000000000000000216825000000000000000000000000001706426300000000000000000000216812500000000000000000000000001622759900000000000000000000216800000000000000000000000000001564825200000000000000000000216787500000000000000000000000001511915400000000000000000000216775000000000000000000000000001671122900000000000000000000216762500000000000000000000000001601042500000000000000000000216750000000000000000000000000001539663600000000000000000000216737500000000000000000000000001643222600000000000000000000216725000000000000000000000000001461403900000000000000000000216712500000000000000000000000001482988200000000000000000000216700000000000000000000000000001558635300000000000000000000216687500000000000000000000000001693372600000000000000000000216675000000000000000000000000001741020800000000000000000000216662500000000000000000000000001741492700000000000000000000216650000000000000000000000000001651287500000000000000000000216637500000000000000000000000001505731600000000000000000000216625000000000000000000000000001424446700000000000000000000216612500000000000000000000000001592849200000000000000000000216600000000000000000000000000001629318200000000000000000000216587500000000000000000000000001442758500000000000000000000216575000000000000000000000000001363679600000000000000000000216562500000000000000000000000001549612900000000000000000000216550000000000000000000000000001542792300000000000000000000216537500000000000000000000000001525090700000000000000000000216525000000000000000000000000001610248300000000000000000000216512500000000000000000000000001617332800000000000000000000216500000000000000000000000000001557084300000000000000000000216487500000000000000000000000001582747900000000000000000000216475000000000000000000000000001544464900000000000000000000216462500000000000000000000000001549156000000000000000000000216450000000000000000000000000001618660600000000000000000000216437500000000000000000000000001572652000000000000000000000216425000000000000000000000000001595207300000000000000000000216412500000000000000000000000001563734800000000000000000000216400000000000000000000000000001540037000000000000000000000216387500000000000000000000000001700797600000000000000000000216375000000000000000000000000001797504200000000000000000000216362500000000000000000000000001713138500000000000000000000216350000000000000000000000000001708970700000000000000000000216337500000000000000000000000001578630800000000000000000000216325000000000000000000000000001600249800000000000000000000216312500000000000000000000000001604280000000000000000000000216300000000000000000000000000001560505000000000000000000000216287500000000000000000000000001567703700000000000000000000216275000000000000000000000000001638126800000000000000000000216262500000000000000000000000001599736500000000000000000000216250000000000000000000000000001634390700000000000000000000216237500000000000000000000000001599015200000000000000000000216225000000000000000000000000001533737800000000000000000000216212500000000000000000000000001525592300000000000000000000216200000000000000000000,
    1704987100000000000000000000217787500000000000000000000000001788028200000000000000000000217775000000000000000000000000001813563500000000000000000000217762500000000000000000000000001648338600000000000000000000217750000000000000000000000000001503222800000000000000000000217737500000000000000000000000001592989400000000000000000000217725000000000000000000000000001610364800000000000000000000217712500000000000000000000000001680510100000000000000000000217700000000000000000000000000001772547400000000000000000000217687500000000000000000000000001695715400000000000000000000217675000000000000000000000000001601328100000000000000000000217662500000000000000000000000001746036900000000000000000000217650000000000000000000000000001723786000000000000000000000217637500000000000000000000000001543745100000000000000000000217625000000000000000000000000001554066800000000000000000000217612500000000000000000000000001572313600000000000000000000217600000000000000000000000000001447006500000000000000000000217587500000000000000000000000001537855300000000000000000000217575000000000000000000000000001766072900000000000000000000217562500000000000000000000000001739886400000000000000000000217550000000000000000000000000001736007600000000000000000000217537500000000000000000000000001635338400000000000000000000217525000000000000000000000000001637714200000000000000000000217512500000000000000000000000001594802700000000000000000000217500000000000000000000000000001622475800000000000000000000217487500000000000000000000000001575558500000000000000000000217475000000000000000000000000001474884500000000000000000000217462500000000000000000000000001556894500000000000000000000217450000000000000000000000000001626102600000000000000000000217437500000000000000000000000001712668000000000000000000000217425000000000000000000000000001659049700000000000000000000217412500000000000000000000000001603717100000000000000000000217400000000000000000000000000001588424600000000000000000000217387500000000000000000000000001537021900000000000000000000217375000000000000000000000000001615858900000000000000000000217362500000000000000000000000001568377200000000000000000000217350000000000000000000000000001585522900000000000000000000217337500000000000000000000000001703280800000000000000000000217325000000000000000000000000001807908400000000000000000000217312500000000000000000000000001830874000000000000000000000217300000000000000000000000000001737345600000000000000000000217287500000000000000000000000001620264300000000000000000000217275000000000000000000000000001576774600000000000000000000217262500000000000000000000000001668000100000000000000000000217250000000000000000000000000001744792900000000000000000000217237500000000000000000000000001535922300000000000000000000217225000000000000000000000000001577532500000000000000000000217212500000000000000000000000001690667600000000000000000000217200000000000000000000000000001644220700000000000000000000217187500000000000000000000000001659349900000000000000000000217175000000000000000000000000001616531900000000000000000000217162500000000000000000000000001562882400000000000000000000217150000000000000000000000000001613106600000000000000000000217137500000000000000000000000001644784300000000000000000000217125000000000000000000000000001748720600000000000000000000217112500000000000000000000000001687300300000000000000000000217100000000000000000000000000001709978800000000000000000000217087500000000000000000000000001578346700000000000000000000217075000000000000000000000000001425382900000000000000000000217062500000000000000000000000001584108700000000000000000000217050000000000000000000000000001710112100000000000000000000217037500000000000000000000000001581683500000000000000000000217025000000000000000000000000001454608800000000000000000000217012500000000000000000000000001518414400000000000000000000217000000000000000000000,
    1671399000000000000000000000218587500000000000000000000000001708136400000000000000000000218575000000000000000000000000001635416900000000000000000000218562500000000000000000000000001624279900000000000000000000218550000000000000000000000000001606032700000000000000000000218537500000000000000000000000001709272700000000000000000000218525000000000000000000000000001765316000000000000000000000218512500000000000000000000000001685611700000000000000000000218500000000000000000000000000001543144400000000000000000000218487500000000000000000000000001602957100000000000000000000218475000000000000000000000000001700997700000000000000000000218462500000000000000000000000001680733000000000000000000000218450000000000000000000000000001667304500000000000000000000218437500000000000000000000000001642994400000000000000000000218425000000000000000000000000001678084800000000000000000000218412500000000000000000000000001643950000000000000000000000218400000000000000000000000000001642325400000000000000000000218387500000000000000000000000001519345400000000000000000000218375000000000000000000000000001615473500000000000000000000218362500000000000000000000000001639842700000000000000000000218350000000000000000000000000001755831300000000000000000000218337500000000000000000000000001691395700000000000000000000218325000000000000000000000000001663089700000000000000000000218312500000000000000000000000001613135800000000000000000000218300000000000000000000000000001711799800000000000000000000218287500000000000000000000000001784836900000000000000000000218275000000000000000000000000001668471900000000000000000000218262500000000000000000000000001525053100000000000000000000218250000000000000000000000000001571306500000000000000000000218237500000000000000000000000001648904700000000000000000000218225000000000000000000000000001583782800000000000000000000218212500000000000000000000000001753697600000000000000000000218200000000000000000000000000001748321000000000000000000000218187500000000000000000000000001756522600000000000000000000218175000000000000000000000000001788806700000000000000000000218162500000000000000000000000001665262900000000000000000000218150000000000000000000000000001663323000000000000000000000218137500000000000000000000000001665722800000000000000000000218125000000000000000000000000001702561700000000000000000000218112500000000000000000000000001623308300000000000000000000218100000000000000000000000000001586163500000000000000000000218087500000000000000000000000001565346300000000000000000000218075000000000000000000000000001533901700000000000000000000218062500000000000000000000000001594528100000000000000000000218050000000000000000000000000001662835200000000000000000000218037500000000000000000000000001620396000000000000000000000218025000000000000000000000000001627241800000000000000000000218012500000000000000000000000001717514000000000000000000000218000000000000000000000000000001700181800000000000000000000217987500000000000000000000000001657146900000000000000000000217975000000000000000000000000001691284700000000000000000000217962500000000000000000000000001637879600000000000000000000217950000000000000000000000000001710833400000000000000000000217937500000000000000000000000001673892100000000000000000000217925000000000000000000000000001562892300000000000000000000217912500000000000000000000000001575302500000000000000000000217900000000000000000000000000001533289100000000000000000000217887500000000000000000000000001582146800000000000000000000217875000000000000000000000000001682464900000000000000000000217862500000000000000000000000001565647500000000000000000000217850000000000000000000000000001535506900000000000000000000217837500000000000000000000000001526777400000000000000000000217825000000000000000000000000001745235700000000000000000000217812500000000000000000000000001725844600000000000000000000217800000000000000000000,
    1688645700000000000000000000219387500000000000000000000000001631833600000000000000000000219375000000000000000000000000001742794700000000000000000000219362500000000000000000000000001632243600000000000000000000219350000000000000000000000000001691539200000000000000000000219337500000000000000000000000001649395400000000000000000000219325000000000000000000000000001735619000000000000000000000219312500000000000000000000000001706344600000000000000000000219300000000000000000000000000001594292400000000000000000000219287500000000000000000000000001656998100000000000000000000219275000000000000000000000000001597660000000000000000000000219262500000000000000000000000001754314800000000000000000000219250000000000000000000000000001786847500000000000000000000219237500000000000000000000000001732382100000000000000000000219225000000000000000000000000001673958600000000000000000000219212500000000000000000000000001671043600000000000000000000219200000000000000000000000000001684280200000000000000000000219187500000000000000000000000001690043300000000000000000000219175000000000000000000000000001656817800000000000000000000219162500000000000000000000000001602989500000000000000000000219150000000000000000000000000001560368900000000000000000000219137500000000000000000000000001603895000000000000000000000219125000000000000000000000000001526076600000000000000000000219112500000000000000000000000001589462400000000000000000000219100000000000000000000000000001720220300000000000000000000219087500000000000000000000000001763691800000000000000000000219075000000000000000000000000001736288100000000000000000000219062500000000000000000000000001626128100000000000000000000219050000000000000000000000000001655015100000000000000000000219037500000000000000000000000001704985600000000000000000000219025000000000000000000000000001578302400000000000000000000219012500000000000000000000000001635046900000000000000000000219000000000000000000000000000001626379600000000000000000000218987500000000000000000000000001692495300000000000000000000218975000000000000000000000000001694404400000000000000000000218962500000000000000000000000001551723500000000000000000000218950000000000000000000000000001585156200000000000000000000218937500000000000000000000000001615862900000000000000000000218925000000000000000000000000001623624200000000000000000000218912500000000000000000000000001604419400000000000000000000218900000000000000000000000000001622335100000000000000000000218887500000000000000000000000001539359800000000000000000000218875000000000000000000000000001548044000000000000000000000218862500000000000000000000000001575867000000000000000000000218850000000000000000000000000001589663000000000000000000000218837500000000000000000000000001692768700000000000000000000218825000000000000000000000000001630523200000000000000000000218812500000000000000000000000001638215400000000000000000000218800000000000000000000000000001718327100000000000000000000218787500000000000000000000000001708845100000000000000000000218775000000000000000000000000001550417000000000000000000000218762500000000000000000000000001646871500000000000000000000218750000000000000000000000000001715015300000000000000000000218737500000000000000000000000001619724400000000000000000000218725000000000000000000000000001544974900000000000000000000218712500000000000000000000000001421175400000000000000000000218700000000000000000000000000001516136500000000000000000000218687500000000000000000000000001587815500000000000000000000218675000000000000000000000000001640322600000000000000000000218662500000000000000000000000001759083300000000000000000000218650000000000000000000000000001721405800000000000000000000218637500000000000000000000000001703270800000000000000000000218625000000000000000000000000001624541000000000000000000000218612500000000000000000000000001484912400000000000000000000218600000000000000000000,
    1805407200000000000000000000220187500000000000000000000000001705688400000000000000000000220175000000000000000000000000001626863900000000000000000000220162500000000000000000000000001799453700000000000000000000220150000000000000000000000000001754349500000000000000000000220137500000000000000000000000001810398300000000000000000000220125000000000000000000000000001673759900000000000000000000220112500000000000000000000000001491630500000000000000000000220100000000000000000000000000001668865700000000000000000000220087500000000000000000000000001504294800000000000000000000220075000000000000000000000000001441735600000000000000000000220062500000000000000000000000001515722600000000000000000000220050000000000000000000000000001560622700000000000000000000220037500000000000000000000000001716173500000000000000000000220025000000000000000000000000001698691000000000000000000000220012500000000000000000000000001617512900000000000000000000220000000000000000000000000000001717260400000000000000000000219987500000000000000000000000001604423700000000000000000000219975000000000000000000000000001718802900000000000000000000219962500000000000000000000000001602928200000000000000000000219950000000000000000000000000001591674600000000000000000000219937500000000000000000000000001699652700000000000000000000219925000000000000000000000000001531998900000000000000000000219912500000000000000000000000001452667300000000000000000000219900000000000000000000000000001689725700000000000000000000219887500000000000000000000000001688722900000000000000000000219875000000000000000000000000001608761100000000000000000000219862500000000000000000000000001577568800000000000000000000219850000000000000000000000000001639068500000000000000000000219837500000000000000000000000001703816700000000000000000000219825000000000000000000000000001702587300000000000000000000219812500000000000000000000000001641227400000000000000000000219800000000000000000000000000001656133300000000000000000000219787500000000000000000000000001511428100000000000000000000219775000000000000000000000000001553954600000000000000000000219762500000000000000000000000001651666500000000000000000000219750000000000000000000000000001692295100000000000000000000219737500000000000000000000000001698722100000000000000000000219725000000000000000000000000001676548900000000000000000000219712500000000000000000000000001644168800000000000000000000219700000000000000000000000000001789419200000000000000000000219687500000000000000000000000001668223000000000000000000000219675000000000000000000000000001608677800000000000000000000219662500000000000000000000000001595262900000000000000000000219650000000000000000000000000001708649200000000000000000000219637500000000000000000000000001653125400000000000000000000219625000000000000000000000000001622643700000000000000000000219612500000000000000000000000001674928300000000000000000000219600000000000000000000000000001531574300000000000000000000219587500000000000000000000000001564375300000000000000000000219575000000000000000000000000001585842300000000000000000000219562500000000000000000000000001536326300000000000000000000219550000000000000000000000000001573034700000000000000000000219537500000000000000000000000001665193100000000000000000000219525000000000000000000000000001770969500000000000000000000219512500000000000000000000000001703115200000000000000000000219500000000000000000000000000001658537000000000000000000000219487500000000000000000000000001616046100000000000000000000219475000000000000000000000000001683413000000000000000000000219462500000000000000000000000001735510800000000000000000000219450000000000000000000000000001747939000000000000000000000219437500000000000000000000000001693674600000000000000000000219425000000000000000000000000001769447300000000000000000000219412500000000000000000000000001703476600000000000000000000219400000000000000000000,
    1793881400000000000000000000220987500000000000000000000000001635228200000000000000000000220975000000000000000000000000001662908700000000000000000000220962500000000000000000000000001508473200000000000000000000220950000000000000000000000000001510151100000000000000000000220937500000000000000000000000001573218600000000000000000000220925000000000000000000000000001673740800000000000000000000220912500000000000000000000000001770614800000000000000000000220900000000000000000000000000001702054300000000000000000000220887500000000000000000000000001604485500000000000000000000220875000000000000000000000000001621112400000000000000000000220862500000000000000000000000001701919000000000000000000000220850000000000000000000000000001617014900000000000000000000220837500000000000000000000000001702995900000000000000000000220825000000000000000000000000001740219400000000000000000000220812500000000000000000000000001693283400000000000000000000220800000000000000000000000000001512017400000000000000000000220787500000000000000000000000001566937700000000000000000000220775000000000000000000000000001608805600000000000000000000220762500000000000000000000000001487020900000000000000000000220750000000000000000000000000001594929600000000000000000000220737500000000000000000000000001691157100000000000000000000220725000000000000000000000000001649610100000000000000000000220712500000000000000000000000001506316400000000000000000000220700000000000000000000000000001522990100000000000000000000220687500000000000000000000000001520162200000000000000000000220675000000000000000000000000001504788000000000000000000000220662500000000000000000000000001630139500000000000000000000220650000000000000000000000000001742969100000000000000000000220637500000000000000000000000001605543000000000000000000000220625000000000000000000000000001531457100000000000000000000220612500000000000000000000000001634071400000000000000000000220600000000000000000000000000001772773300000000000000000000220587500000000000000000000000001760426100000000000000000000220575000000000000000000000000001560067200000000000000000000220562500000000000000000000000001476783300000000000000000000220550000000000000000000000000001548066600000000000000000000220537500000000000000000000000001695850900000000000000000000220525000000000000000000000000001631762200000000000000000000220512500000000000000000000000001521151100000000000000000000220500000000000000000000000000001570162400000000000000000000220487500000000000000000000000001617579100000000000000000000220475000000000000000000000000001625632700000000000000000000220462500000000000000000000000001551780300000000000000000000220450000000000000000000000000001706220900000000000000000000220437500000000000000000000000001769161400000000000000000000220425000000000000000000000000001706287300000000000000000000220412500000000000000000000000001749845300000000000000000000220400000000000000000000000000001668525400000000000000000000220387500000000000000000000000001645044800000000000000000000220375000000000000000000000000001626829700000000000000000000220362500000000000000000000000001486873100000000000000000000220350000000000000000000000000001492926500000000000000000000220337500000000000000000000000001553481000000000000000000000220325000000000000000000000000001611192900000000000000000000220312500000000000000000000000001531600400000000000000000000220300000000000000000000000000001351047700000000000000000000220287500000000000000000000000001496018100000000000000000000220275000000000000000000000000001522127500000000000000000000220262500000000000000000000000001559010900000000000000000000220250000000000000000000000000001594536900000000000000000000220237500000000000000000000000001674727900000000000000000000220225000000000000000000000000001630554600000000000000000000220212500000000000000000000000001715271700000000000000000000220200000000000000000000,
    1640520000000000000000000000221787500000000000000000000000001618348700000000000000000000221775000000000000000000000000001624038900000000000000000000221762500000000000000000000000001663600700000000000000000000221750000000000000000000000000001633389500000000000000000000221737500000000000000000000000001604377700000000000000000000221725000000000000000000000000001667285700000000000000000000221712500000000000000000000000001825211300000000000000000000221700000000000000000000000000001873666900000000000000000000221687500000000000000000000000001751032300000000000000000000221675000000000000000000000000001771434100000000000000000000221662500000000000000000000000001773075400000000000000000000221650000000000000000000000000001579841200000000000000000000221637500000000000000000000000001612995400000000000000000000221625000000000000000000000000001639752100000000000000000000221612500000000000000000000000001571368400000000000000000000221600000000000000000000000000001640049000000000000000000000221587500000000000000000000000001756402300000000000000000000221575000000000000000000000000001752693500000000000000000000221562500000000000000000000000001668042100000000000000000000221550000000000000000000000000001544418000000000000000000000221537500000000000000000000000001665367400000000000000000000221525000000000000000000000000001621452000000000000000000000221512500000000000000000000000001637149700000000000000000000221500000000000000000000000000001512287100000000000000000000221487500000000000000000000000001587026700000000000000000000221475000000000000000000000000001577624600000000000000000000221462500000000000000000000000001607701800000000000000000000221450000000000000000000000000001676446700000000000000000000221437500000000000000000000000001678848300000000000000000000221425000000000000000000000000001615343500000000000000000000221412500000000000000000000000001586911900000000000000000000221400000000000000000000000000001658489500000000000000000000221387500000000000000000000000001655271800000000000000000000221375000000000000000000000000001549489800000000000000000000221362500000000000000000000000001544022600000000000000000000221350000000000000000000000000001511206400000000000000000000221337500000000000000000000000001615961500000000000000000000221325000000000000000000000000001655801100000000000000000000221312500000000000000000000000001705542300000000000000000000221300000000000000000000000000001764778400000000000000000000221287500000000000000000000000001704248300000000000000000000221275000000000000000000000000001740279700000000000000000000221262500000000000000000000000001721661400000000000000000000221250000000000000000000000000001574704500000000000000000000221237500000000000000000000000001570027200000000000000000000221225000000000000000000000000001709762200000000000000000000221212500000000000000000000000001680096700000000000000000000221200000000000000000000000000001501684200000000000000000000221187500000000000000000000000001583533700000000000000000000221175000000000000000000000000001540146400000000000000000000221162500000000000000000000000001549809000000000000000000000221150000000000000000000000000001573269300000000000000000000221137500000000000000000000000001549836500000000000000000000221125000000000000000000000000001564654600000000000000000000221112500000000000000000000000001530629700000000000000000000221100000000000000000000000000001373849800000000000000000000221087500000000000000000000000001406186300000000000000000000221075000000000000000000000000001604750900000000000000000000221062500000000000000000000000001655589000000000000000000000221050000000000000000000000000001674418300000000000000000000221037500000000000000000000000001681483900000000000000000000221025000000000000000000000000001724051700000000000000000000221012500000000000000000000000001844241300000000000000000000221000000000000000000000,
    4902725900000000000000000000222587500000000000000000000000004179107100000000000000000000222575000000000000000000000000005034220600000000000000000000222562500000000000000000000000005473252500000000000000000000222550000000000000000000000000004634807600000000000000000000222537500000000000000000000000007279572900000000000000000000222525000000000000000000000000006302410900000000000000000000222512500000000000000000000000006791126800000000000000000000222500000000000000000000000000005248897800000000000000000000222487500000000000000000000000005416822400000000000000000000222475000000000000000000000000006813360300000000000000000000222462500000000000000000000000005086722800000000000000000000222450000000000000000000000000004881245400000000000000000000222437500000000000000000000000005257312200000000000000000000222425000000000000000000000000006262582800000000000000000000222412500000000000000000000000005294974300000000000000000000222400000000000000000000000000003235920700000000000000000000222387500000000000000000000000002598233900000000000000000000222375000000000000000000000000002200072300000000000000000000222362500000000000000000000000002125295100000000000000000000222350000000000000000000000000002191718600000000000000000000222337500000000000000000000000002556074300000000000000000000222325000000000000000000000000002687129900000000000000000000222312500000000000000000000000003029113400000000000000000000222300000000000000000000000000003065115500000000000000000000222287500000000000000000000000003245114000000000000000000000222275000000000000000000000000003571552700000000000000000000222262500000000000000000000000003078440400000000000000000000222250000000000000000000000000002609118900000000000000000000222237500000000000000000000000002580621500000000000000000000222225000000000000000000000000002572397000000000000000000000222212500000000000000000000000002477635800000000000000000000222200000000000000000000000000002248657200000000000000000000222187500000000000000000000000001979084500000000000000000000222175000000000000000000000000001772917800000000000000000000222162500000000000000000000000001526597200000000000000000000222150000000000000000000000000001584318800000000000000000000222137500000000000000000000000001689896900000000000000000000222125000000000000000000000000001748665000000000000000000000222112500000000000000000000000001731509900000000000000000000222100000000000000000000000000001576380900000000000000000000222087500000000000000000000000001655541600000000000000000000222075000000000000000000000000001758593200000000000000000000222062500000000000000000000000001652651400000000000000000000222050000000000000000000000000001666823800000000000000000000222037500000000000000000000000001584573800000000000000000000222025000000000000000000000000001640062200000000000000000000222012500000000000000000000000001747120700000000000000000000222000000000000000000000000000001669194400000000000000000000221987500000000000000000000000001613794600000000000000000000221975000000000000000000000000001629855700000000000000000000221962500000000000000000000000001558023000000000000000000000221950000000000000000000000000001706864600000000000000000000221937500000000000000000000000001802062300000000000000000000221925000000000000000000000000001564813800000000000000000000221912500000000000000000000000001618259400000000000000000000221900000000000000000000000000001709215800000000000000000000221887500000000000000000000000001676402500000000000000000000221875000000000000000000000000001616500900000000000000000000221862500000000000000000000000001625033400000000000000000000221850000000000000000000000000001715957900000000000000000000221837500000000000000000000000001628883100000000000000000000221825000000000000000000000000001698170000000000000000000000221812500000000000000000000000001657788200000000000000000000221800000000000000000000,
    1606830400000000000000000000223387500000000000000000000000001704183900000000000000000000223375000000000000000000000000001665681100000000000000000000223362500000000000000000000000001708642100000000000000000000223350000000000000000000000000001836826800000000000000000000223337500000000000000000000000001730465200000000000000000000223325000000000000000000000000001573172700000000000000000000223312500000000000000000000000001628871700000000000000000000223300000000000000000000000000001579541900000000000000000000223287500000000000000000000000001601579000000000000000000000223275000000000000000000000000001701934600000000000000000000223262500000000000000000000000001718549300000000000000000000223250000000000000000000000000001700429500000000000000000000223237500000000000000000000000001782149500000000000000000000223225000000000000000000000000001773384900000000000000000000223212500000000000000000000000001579605100000000000000000000223200000000000000000000000000001572436400000000000000000000223187500000000000000000000000001511630300000000000000000000223175000000000000000000000000001618003000000000000000000000223162500000000000000000000000001733166300000000000000000000223150000000000000000000000000001627875200000000000000000000223137500000000000000000000000001598841300000000000000000000223125000000000000000000000000001561522000000000000000000000223112500000000000000000000000001699271800000000000000000000223100000000000000000000000000001602453300000000000000000000223087500000000000000000000000001536242700000000000000000000223075000000000000000000000000001501130300000000000000000000223062500000000000000000000000001543848900000000000000000000223050000000000000000000000000001724468500000000000000000000223037500000000000000000000000001825980400000000000000000000223025000000000000000000000000001580415700000000000000000000223012500000000000000000000000001586427600000000000000000000223000000000000000000000000000001623395000000000000000000000222987500000000000000000000000001720802600000000000000000000222975000000000000000000000000001724641800000000000000000000222962500000000000000000000000001692038200000000000000000000222950000000000000000000000000001680439000000000000000000000222937500000000000000000000000001674859900000000000000000000222925000000000000000000000000001677458300000000000000000000222912500000000000000000000000001749910200000000000000000000222900000000000000000000000000001670755600000000000000000000222887500000000000000000000000001553229400000000000000000000222875000000000000000000000000001724918200000000000000000000222862500000000000000000000000001761978700000000000000000000222850000000000000000000000000001885480000000000000000000000222837500000000000000000000000002389703500000000000000000000222825000000000000000000000000002739371500000000000000000000222812500000000000000000000000002650128900000000000000000000222800000000000000000000000000002660349000000000000000000000222787500000000000000000000000002851261000000000000000000000222775000000000000000000000000002986910600000000000000000000222762500000000000000000000000003300314200000000000000000000222750000000000000000000000000003077304300000000000000000000222737500000000000000000000000003023970200000000000000000000222725000000000000000000000000002658375400000000000000000000222712500000000000000000000000002518282500000000000000000000222700000000000000000000000000002179925900000000000000000000222687500000000000000000000000002088854900000000000000000000222675000000000000000000000000002183227300000000000000000000222662500000000000000000000000002369518100000000000000000000222650000000000000000000000000002724804600000000000000000000222637500000000000000000000000004028008800000000000000000000222625000000000000000000000000005779876700000000000000000000222612500000000000000000000000005004604700000000000000000000222600000000000000000000,
    1675909900000000000000000000224187500000000000000000000000001624396800000000000000000000224175000000000000000000000000001549378400000000000000000000224162500000000000000000000000001559057200000000000000000000224150000000000000000000000000001601126100000000000000000000224137500000000000000000000000001640904100000000000000000000224125000000000000000000000000001770660900000000000000000000224112500000000000000000000000001727455600000000000000000000224100000000000000000000000000001598396200000000000000000000224087500000000000000000000000001674928700000000000000000000224075000000000000000000000000001650811100000000000000000000224062500000000000000000000000001736387000000000000000000000224050000000000000000000000000001839736600000000000000000000224037500000000000000000000000001763913300000000000000000000224025000000000000000000000000001611576900000000000000000000224012500000000000000000000000001648901900000000000000000000224000000000000000000000000000001702960500000000000000000000223987500000000000000000000000001744369300000000000000000000223975000000000000000000000000001666234500000000000000000000223962500000000000000000000000001690541400000000000000000000223950000000000000000000000000001756921500000000000000000000223937500000000000000000000000001742241600000000000000000000223925000000000000000000000000001702016500000000000000000000223912500000000000000000000000001590951000000000000000000000223900000000000000000000000000001621753400000000000000000000223887500000000000000000000000001688988800000000000000000000223875000000000000000000000000001714936000000000000000000000223862500000000000000000000000001576905300000000000000000000223850000000000000000000000000001691002300000000000000000000223837500000000000000000000000001682077900000000000000000000223825000000000000000000000000001665937900000000000000000000223812500000000000000000000000001598108600000000000000000000223800000000000000000000000000001679547400000000000000000000223787500000000000000000000000001693879200000000000000000000223775000000000000000000000000001621084500000000000000000000223762500000000000000000000000001688843800000000000000000000223750000000000000000000000000001671919600000000000000000000223737500000000000000000000000001522899600000000000000000000223725000000000000000000000000001571673800000000000000000000223712500000000000000000000000001658082700000000000000000000223700000000000000000000000000001760919000000000000000000000223687500000000000000000000000001736619700000000000000000000223675000000000000000000000000001702413400000000000000000000223662500000000000000000000000001600479900000000000000000000223650000000000000000000000000001574487400000000000000000000223637500000000000000000000000001582898300000000000000000000223625000000000000000000000000001636565000000000000000000000223612500000000000000000000000001727267700000000000000000000223600000000000000000000000000001639552500000000000000000000223587500000000000000000000000001557535600000000000000000000223575000000000000000000000000001784925200000000000000000000223562500000000000000000000000001879128800000000000000000000223550000000000000000000000000001617277700000000000000000000223537500000000000000000000000001553119000000000000000000000223525000000000000000000000000001570534800000000000000000000223512500000000000000000000000001533432200000000000000000000223500000000000000000000000000001642362400000000000000000000223487500000000000000000000000001746644200000000000000000000223475000000000000000000000000001760927200000000000000000000223462500000000000000000000000001613563300000000000000000000223450000000000000000000000000001543220000000000000000000000223437500000000000000000000000001649014700000000000000000000223425000000000000000000000000001773248000000000000000000000223412500000000000000000000000001677417100000000000000000000223400000000000000000000,
    25227330000000000000000000000224987500000000000000000000000027581927000000000000000000000224975000000000000000000000000032376212000000000000000000000224962500000000000000000000000023167720000000000000000000000224950000000000000000000000000025441712000000000000000000000224937500000000000000000000000025628318000000000000000000000224925000000000000000000000000021352149000000000000000000000224912500000000000000000000000017767017000000000000000000000224900000000000000000000000000007298042000000000000000000000224887500000000000000000000000004011112800000000000000000000224875000000000000000000000000003845572600000000000000000000224862500000000000000000000000004114547400000000000000000000224850000000000000000000000000004472460100000000000000000000224837500000000000000000000000004910661400000000000000000000224825000000000000000000000000003389282500000000000000000000224812500000000000000000000000002757722800000000000000000000224800000000000000000000000000002871374600000000000000000000224787500000000000000000000000003490207800000000000000000000224775000000000000000000000000004295446700000000000000000000224762500000000000000000000000004256769600000000000000000000224750000000000000000000000000004223432000000000000000000000224737500000000000000000000000003908913300000000000000000000224725000000000000000000000000003366483000000000000000000000224712500000000000000000000000002965018600000000000000000000224700000000000000000000000000002376589500000000000000000000224687500000000000000000000000001950652500000000000000000000224675000000000000000000000000001838139800000000000000000000224662500000000000000000000000001761082500000000000000000000224650000000000000000000000000001635202900000000000000000000224637500000000000000000000000001664669800000000000000000000224625000000000000000000000000001682937300000000000000000000224612500000000000000000000000001615095600000000000000000000224600000000000000000000000000001675100300000000000000000000224587500000000000000000000000001734217300000000000000000000224575000000000000000000000000001704923100000000000000000000224562500000000000000000000000001706220400000000000000000000224550000000000000000000000000001639801600000000000000000000224537500000000000000000000000001740760600000000000000000000224525000000000000000000000000001709112000000000000000000000224512500000000000000000000000001732856800000000000000000000224500000000000000000000000000001610154900000000000000000000224487500000000000000000000000001724241200000000000000000000224475000000000000000000000000001798256700000000000000000000224462500000000000000000000000001607884500000000000000000000224450000000000000000000000000001533398700000000000000000000224437500000000000000000000000001691000900000000000000000000224425000000000000000000000000001648894500000000000000000000224412500000000000000000000000001675299300000000000000000000224400000000000000000000000000001676264500000000000000000000224387500000000000000000000000001692733500000000000000000000224375000000000000000000000000001720624400000000000000000000224362500000000000000000000000001636661100000000000000000000224350000000000000000000000000001770378000000000000000000000224337500000000000000000000000001707450200000000000000000000224325000000000000000000000000001652708400000000000000000000224312500000000000000000000000001754060800000000000000000000224300000000000000000000000000001718537400000000000000000000224287500000000000000000000000001549759800000000000000000000224275000000000000000000000000001599982100000000000000000000224262500000000000000000000000001786269200000000000000000000224250000000000000000000000000001747848300000000000000000000224237500000000000000000000000001734630600000000000000000000224225000000000000000000000000001753698000000000000000000000224212500000000000000000000000001747965800000000000000000000224200000000000000000000,
    1699518500000000000000000000225787500000000000000000000000001777888900000000000000000000225775000000000000000000000000001787975400000000000000000000225762500000000000000000000000001787418200000000000000000000225750000000000000000000000000001727904300000000000000000000225737500000000000000000000000001646263800000000000000000000225725000000000000000000000000001595700700000000000000000000225712500000000000000000000000001644780000000000000000000000225700000000000000000000000000001685252200000000000000000000225687500000000000000000000000001805441800000000000000000000225675000000000000000000000000001675251600000000000000000000225662500000000000000000000000001651174100000000000000000000225650000000000000000000000000001750595000000000000000000000225637500000000000000000000000001781496100000000000000000000225625000000000000000000000000001647592200000000000000000000225612500000000000000000000000001630959900000000000000000000225600000000000000000000000000001642793200000000000000000000225587500000000000000000000000001654286600000000000000000000225575000000000000000000000000001792548400000000000000000000225562500000000000000000000000001831451900000000000000000000225550000000000000000000000000001898171800000000000000000000225537500000000000000000000000001815523000000000000000000000225525000000000000000000000000001731095100000000000000000000225512500000000000000000000000001559875300000000000000000000225500000000000000000000000000001565685300000000000000000000225487500000000000000000000000001719125200000000000000000000225475000000000000000000000000001792119500000000000000000000225462500000000000000000000000001737831800000000000000000000225450000000000000000000000000001615547300000000000000000000225437500000000000000000000000001740906600000000000000000000225425000000000000000000000000001824679900000000000000000000225412500000000000000000000000001753912700000000000000000000225400000000000000000000000000001736448600000000000000000000225387500000000000000000000000001740344400000000000000000000225375000000000000000000000000001884162200000000000000000000225362500000000000000000000000001889755600000000000000000000225350000000000000000000000000002106254700000000000000000000225337500000000000000000000000002590617700000000000000000000225325000000000000000000000000003102734200000000000000000000225312500000000000000000000000003430798300000000000000000000225300000000000000000000000000004092006000000000000000000000225287500000000000000000000000004223100400000000000000000000225275000000000000000000000000003524952700000000000000000000225262500000000000000000000000003230730200000000000000000000225250000000000000000000000000003162604800000000000000000000225237500000000000000000000000002919195500000000000000000000225225000000000000000000000000003031764000000000000000000000225212500000000000000000000000004492034200000000000000000000225200000000000000000000000000005249517700000000000000000000225187500000000000000000000000004412103900000000000000000000225175000000000000000000000000004212434100000000000000000000225162500000000000000000000000003563927800000000000000000000225150000000000000000000000000005075414300000000000000000000225137500000000000000000000000012810704000000000000000000000225125000000000000000000000000021142151000000000000000000000225112500000000000000000000000021894931000000000000000000000225100000000000000000000000000027046422000000000000000000000225087500000000000000000000000021737008000000000000000000000225075000000000000000000000000028947265000000000000000000000225062500000000000000000000000031220848000000000000000000000225050000000000000000000000000023056275000000000000000000000225037500000000000000000000000031091633000000000000000000000225025000000000000000000000000026783318000000000000000000000225012500000000000000000000000030832675000000000000000000000225000000000000000000000,
    1525073800000000000000000000226587500000000000000000000000001665353000000000000000000000226575000000000000000000000000001841613300000000000000000000226562500000000000000000000000001938273200000000000000000000226550000000000000000000000000001844287800000000000000000000226537500000000000000000000000001722348200000000000000000000226525000000000000000000000000001737043300000000000000000000226512500000000000000000000000001669540000000000000000000000226500000000000000000000000000001666260100000000000000000000226487500000000000000000000000001632550800000000000000000000226475000000000000000000000000001630690800000000000000000000226462500000000000000000000000001783366100000000000000000000226450000000000000000000000000001737030200000000000000000000226437500000000000000000000000001703073000000000000000000000226425000000000000000000000000001780070200000000000000000000226412500000000000000000000000001915997400000000000000000000226400000000000000000000000000001803155700000000000000000000226387500000000000000000000000001716625900000000000000000000226375000000000000000000000000001783679100000000000000000000226362500000000000000000000000001768354600000000000000000000226350000000000000000000000000001659364900000000000000000000226337500000000000000000000000001614267500000000000000000000226325000000000000000000000000001717695800000000000000000000226312500000000000000000000000001812166700000000000000000000226300000000000000000000000000001680449400000000000000000000226287500000000000000000000000001768799300000000000000000000226275000000000000000000000000001720180400000000000000000000226262500000000000000000000000001738086200000000000000000000226250000000000000000000000000001734048300000000000000000000226237500000000000000000000000001699387000000000000000000000226225000000000000000000000000001604631900000000000000000000226212500000000000000000000000001670590700000000000000000000226200000000000000000000000000001523521900000000000000000000226187500000000000000000000000001603086400000000000000000000226175000000000000000000000000001621795300000000000000000000226162500000000000000000000000001529416200000000000000000000226150000000000000000000000000001541889000000000000000000000226137500000000000000000000000001652755600000000000000000000226125000000000000000000000000001849781200000000000000000000226112500000000000000000000000001788155100000000000000000000226100000000000000000000000000001714349500000000000000000000226087500000000000000000000000001640495700000000000000000000226075000000000000000000000000001741899900000000000000000000226062500000000000000000000000001820175500000000000000000000226050000000000000000000000000001708711600000000000000000000226037500000000000000000000000001703317100000000000000000000226025000000000000000000000000001762880900000000000000000000226012500000000000000000000000001618235300000000000000000000226000000000000000000000000000001592448900000000000000000000225987500000000000000000000000001698844600000000000000000000225975000000000000000000000000001823888500000000000000000000225962500000000000000000000000001835407000000000000000000000225950000000000000000000000000001626802000000000000000000000225937500000000000000000000000001682010900000000000000000000225925000000000000000000000000001786802500000000000000000000225912500000000000000000000000001686034500000000000000000000225900000000000000000000000000001632497900000000000000000000225887500000000000000000000000001615721300000000000000000000225875000000000000000000000000001609067500000000000000000000225862500000000000000000000000001643319400000000000000000000225850000000000000000000000000001656193400000000000000000000225837500000000000000000000000001718875400000000000000000000225825000000000000000000000000001733722600000000000000000000225812500000000000000000000000001718411000000000000000000000225800000000000000000000,
    6757682800000000000000000000227387500000000000000000000000005216391300000000000000000000227375000000000000000000000000003840121200000000000000000000227362500000000000000000000000003243405700000000000000000000227350000000000000000000000000003483767800000000000000000000227337500000000000000000000000004476046000000000000000000000227325000000000000000000000000005022312100000000000000000000227312500000000000000000000000006122158700000000000000000000227300000000000000000000000000006862423300000000000000000000227287500000000000000000000000007065254700000000000000000000227275000000000000000000000000007167849200000000000000000000227262500000000000000000000000006823240800000000000000000000227250000000000000000000000000006094615700000000000000000000227237500000000000000000000000005244363200000000000000000000227225000000000000000000000000005870328800000000000000000000227212500000000000000000000000005184237500000000000000000000227200000000000000000000000000003719870800000000000000000000227187500000000000000000000000002394964900000000000000000000227175000000000000000000000000001888467200000000000000000000227162500000000000000000000000001778593200000000000000000000227150000000000000000000000000001628460000000000000000000000227137500000000000000000000000001669728400000000000000000000227125000000000000000000000000001726906000000000000000000000227112500000000000000000000000001780797600000000000000000000227100000000000000000000000000001825816000000000000000000000227087500000000000000000000000001476759400000000000000000000227075000000000000000000000000001579420100000000000000000000227062500000000000000000000000001745702900000000000000000000227050000000000000000000000000001820202300000000000000000000227037500000000000000000000000001824919600000000000000000000227025000000000000000000000000001626688600000000000000000000227012500000000000000000000000001534683900000000000000000000227000000000000000000000000000001676388300000000000000000000226987500000000000000000000000001716609900000000000000000000226975000000000000000000000000001672684900000000000000000000226962500000000000000000000000001694035300000000000000000000226950000000000000000000000000001725078200000000000000000000226937500000000000000000000000001682973700000000000000000000226925000000000000000000000000001711458700000000000000000000226912500000000000000000000000001580106900000000000000000000226900000000000000000000000000001546905800000000000000000000226887500000000000000000000000001643821100000000000000000000226875000000000000000000000000001719189300000000000000000000226862500000000000000000000000002090873700000000000000000000226850000000000000000000000000001923221700000000000000000000226837500000000000000000000000001594307500000000000000000000226825000000000000000000000000001598016000000000000000000000226812500000000000000000000000001607624200000000000000000000226800000000000000000000000000001664762900000000000000000000226787500000000000000000000000001666198200000000000000000000226775000000000000000000000000001669576400000000000000000000226762500000000000000000000000001787104600000000000000000000226750000000000000000000000000001867754200000000000000000000226737500000000000000000000000001824755700000000000000000000226725000000000000000000000000001717136700000000000000000000226712500000000000000000000000001721336400000000000000000000226700000000000000000000000000001698388900000000000000000000226687500000000000000000000000001657110500000000000000000000226675000000000000000000000000001654758000000000000000000000226662500000000000000000000000001930932700000000000000000000226650000000000000000000000000001750376700000000000000000000226637500000000000000000000000001482964500000000000000000000226625000000000000000000000000001610266300000000000000000000226612500000000000000000000000001596759000000000000000000000226600000000000000000000,
    1696095200000000000000000000228187500000000000000000000000001722959100000000000000000000228175000000000000000000000000001831121400000000000000000000228162500000000000000000000000001746805100000000000000000000228150000000000000000000000000001680872800000000000000000000228137500000000000000000000000001726856300000000000000000000228125000000000000000000000000001795525300000000000000000000228112500000000000000000000000001831789800000000000000000000228100000000000000000000000000001703426800000000000000000000228087500000000000000000000000001725907600000000000000000000228075000000000000000000000000001778050500000000000000000000228062500000000000000000000000001784594700000000000000000000228050000000000000000000000000001720612900000000000000000000228037500000000000000000000000001675443300000000000000000000228025000000000000000000000000001792686700000000000000000000228012500000000000000000000000001639809300000000000000000000228000000000000000000000000000001593248900000000000000000000227987500000000000000000000000001647059700000000000000000000227975000000000000000000000000001666075800000000000000000000227962500000000000000000000000001755490100000000000000000000227950000000000000000000000000001761084700000000000000000000227937500000000000000000000000001618285700000000000000000000227925000000000000000000000000001780013400000000000000000000227912500000000000000000000000001824902500000000000000000000227900000000000000000000000000001666621500000000000000000000227887500000000000000000000000001699840700000000000000000000227875000000000000000000000000001843556800000000000000000000227862500000000000000000000000002081434600000000000000000000227850000000000000000000000000003002524000000000000000000000227837500000000000000000000000004706413000000000000000000000227825000000000000000000000000005916151300000000000000000000227812500000000000000000000000005527950100000000000000000000227800000000000000000000000000005810789100000000000000000000227787500000000000000000000000006647326100000000000000000000227775000000000000000000000000007171895100000000000000000000227762500000000000000000000000007474010400000000000000000000227750000000000000000000000000007033576500000000000000000000227737500000000000000000000000006463543000000000000000000000227725000000000000000000000000005138716700000000000000000000227712500000000000000000000000004659747200000000000000000000227700000000000000000000000000003834867100000000000000000000227687500000000000000000000000003497155000000000000000000000227675000000000000000000000000003524499200000000000000000000227662500000000000000000000000004512084900000000000000000000227650000000000000000000000000006102215600000000000000000000227637500000000000000000000000007978322000000000000000000000227625000000000000000000000000010727972000000000000000000000227612500000000000000000000000008807477700000000000000000000227600000000000000000000000000005183815500000000000000000000227587500000000000000000000000005261687700000000000000000000227575000000000000000000000000010273128000000000000000000000227562500000000000000000000000008936541200000000000000000000227550000000000000000000000000004783388200000000000000000000227537500000000000000000000000005299507500000000000000000000227525000000000000000000000000004408950800000000000000000000227512500000000000000000000000005355985700000000000000000000227500000000000000000000000000004968114700000000000000000000227487500000000000000000000000006718363400000000000000000000227475000000000000000000000000010855016000000000000000000000227462500000000000000000000000007076007600000000000000000000227450000000000000000000000000004695548200000000000000000000227437500000000000000000000000007201418600000000000000000000227425000000000000000000000000011201914000000000000000000000227412500000000000000000000000009282667700000000000000000000227400000000000000000000,
    1690535000000000000000000000228987500000000000000000000000001746341800000000000000000000228975000000000000000000000000001622682600000000000000000000228962500000000000000000000000001907286500000000000000000000228950000000000000000000000000001836659100000000000000000000228937500000000000000000000000001776390900000000000000000000228925000000000000000000000000001746195200000000000000000000228912500000000000000000000000001606893000000000000000000000228900000000000000000000000000001643009800000000000000000000228887500000000000000000000000001675966500000000000000000000228875000000000000000000000000001599011900000000000000000000228862500000000000000000000000001620163000000000000000000000228850000000000000000000000000001643340100000000000000000000228837500000000000000000000000001680822200000000000000000000228825000000000000000000000000001728874800000000000000000000228812500000000000000000000000001788143400000000000000000000228800000000000000000000000000001725966100000000000000000000228787500000000000000000000000001650986600000000000000000000228775000000000000000000000000001593552200000000000000000000228762500000000000000000000000001726595800000000000000000000228750000000000000000000000000001728245800000000000000000000228737500000000000000000000000001628289900000000000000000000228725000000000000000000000000001562647500000000000000000000228712500000000000000000000000001707529200000000000000000000228700000000000000000000000000001644608100000000000000000000228687500000000000000000000000001673289000000000000000000000228675000000000000000000000000001871342600000000000000000000228662500000000000000000000000001884731900000000000000000000228650000000000000000000000000001744441600000000000000000000228637500000000000000000000000001755107200000000000000000000228625000000000000000000000000001856479700000000000000000000228612500000000000000000000000001745761900000000000000000000228600000000000000000000000000001704796100000000000000000000228587500000000000000000000000001607391900000000000000000000228575000000000000000000000000001646358100000000000000000000228562500000000000000000000000001702004900000000000000000000228550000000000000000000000000001669683900000000000000000000228537500000000000000000000000001758405300000000000000000000228525000000000000000000000000001737783900000000000000000000228512500000000000000000000000001770209600000000000000000000228500000000000000000000000000001777824600000000000000000000228487500000000000000000000000001583983500000000000000000000228475000000000000000000000000001689985200000000000000000000228462500000000000000000000000001770604700000000000000000000228450000000000000000000000000001708173700000000000000000000228437500000000000000000000000001769802400000000000000000000228425000000000000000000000000001778123100000000000000000000228412500000000000000000000000001751330300000000000000000000228400000000000000000000000000001885116500000000000000000000228387500000000000000000000000001851590900000000000000000000228375000000000000000000000000001650952300000000000000000000228362500000000000000000000000001553557800000000000000000000228350000000000000000000000000001682714700000000000000000000228337500000000000000000000000001650191100000000000000000000228325000000000000000000000000001676857600000000000000000000228312500000000000000000000000001807365300000000000000000000228300000000000000000000000000001756061900000000000000000000228287500000000000000000000000001731584100000000000000000000228275000000000000000000000000001756184400000000000000000000228262500000000000000000000000001690306800000000000000000000228250000000000000000000000000001568229800000000000000000000228237500000000000000000000000001720201300000000000000000000228225000000000000000000000000001846732600000000000000000000228212500000000000000000000000001734803200000000000000000000228200000000000000000000,
    6002372300000000000000000000229787500000000000000000000000006247324800000000000000000000229775000000000000000000000000006511483600000000000000000000229762500000000000000000000000006109547900000000000000000000229750000000000000000000000000005359858300000000000000000000229737500000000000000000000000004473748100000000000000000000229725000000000000000000000000005029481600000000000000000000229712500000000000000000000000004573872200000000000000000000229700000000000000000000000000003381240000000000000000000000229687500000000000000000000000002214019100000000000000000000229675000000000000000000000000001868013100000000000000000000229662500000000000000000000000001781520500000000000000000000229650000000000000000000000000001666561000000000000000000000229637500000000000000000000000001677146800000000000000000000229625000000000000000000000000001724185800000000000000000000229612500000000000000000000000001640836600000000000000000000229600000000000000000000000000001643748200000000000000000000229587500000000000000000000000001855018200000000000000000000229575000000000000000000000000001800333200000000000000000000229562500000000000000000000000001747007000000000000000000000229550000000000000000000000000001805840400000000000000000000229537500000000000000000000000001661055100000000000000000000229525000000000000000000000000001701616400000000000000000000229512500000000000000000000000001703764900000000000000000000229500000000000000000000000000001663575500000000000000000000229487500000000000000000000000001701479800000000000000000000229475000000000000000000000000001650913200000000000000000000229462500000000000000000000000001775860900000000000000000000229450000000000000000000000000001672219800000000000000000000229437500000000000000000000000001591280600000000000000000000229425000000000000000000000000001678393800000000000000000000229412500000000000000000000000001725987300000000000000000000229400000000000000000000000000001648257800000000000000000000229387500000000000000000000000001682761100000000000000000000229375000000000000000000000000001680269800000000000000000000229362500000000000000000000000001600295200000000000000000000229350000000000000000000000000001564807800000000000000000000229337500000000000000000000000001561099800000000000000000000229325000000000000000000000000001631026300000000000000000000229312500000000000000000000000001663938100000000000000000000229300000000000000000000000000001648638500000000000000000000229287500000000000000000000000001538265100000000000000000000229275000000000000000000000000001581548100000000000000000000229262500000000000000000000000001761586300000000000000000000229250000000000000000000000000001747018600000000000000000000229237500000000000000000000000001803735800000000000000000000229225000000000000000000000000001869018900000000000000000000229212500000000000000000000000001802516500000000000000000000229200000000000000000000000000001703845500000000000000000000229187500000000000000000000000001710023400000000000000000000229175000000000000000000000000001790596600000000000000000000229162500000000000000000000000001784563600000000000000000000229150000000000000000000000000001775900500000000000000000000229137500000000000000000000000001720206400000000000000000000229125000000000000000000000000001725527400000000000000000000229112500000000000000000000000001757799000000000000000000000229100000000000000000000000000001680181300000000000000000000229087500000000000000000000000001817462200000000000000000000229075000000000000000000000000001705480600000000000000000000229062500000000000000000000000001597236600000000000000000000229050000000000000000000000000001694945300000000000000000000229037500000000000000000000000001707632000000000000000000000229025000000000000000000000000001574501400000000000000000000229012500000000000000000000000001600680700000000000000000000229000000000000000000000,
    1730770100000000000000000000230587500000000000000000000000001646409000000000000000000000230575000000000000000000000000001687781900000000000000000000230562500000000000000000000000001747876100000000000000000000230550000000000000000000000000001666523100000000000000000000230537500000000000000000000000001644635600000000000000000000230525000000000000000000000000001700983500000000000000000000230512500000000000000000000000001771987600000000000000000000230500000000000000000000000000001670365500000000000000000000230487500000000000000000000000001580905800000000000000000000230475000000000000000000000000001622103800000000000000000000230462500000000000000000000000001638728500000000000000000000230450000000000000000000000000001806451100000000000000000000230437500000000000000000000000001726473400000000000000000000230425000000000000000000000000001647752800000000000000000000230412500000000000000000000000001846790400000000000000000000230400000000000000000000000000001912094700000000000000000000230387500000000000000000000000001809977500000000000000000000230375000000000000000000000000001821114700000000000000000000230362500000000000000000000000002069837400000000000000000000230350000000000000000000000000002807771500000000000000000000230337500000000000000000000000004088851400000000000000000000230325000000000000000000000000005031304100000000000000000000230312500000000000000000000000004711200500000000000000000000230300000000000000000000000000004859473500000000000000000000230287500000000000000000000000005562738800000000000000000000230275000000000000000000000000006041077200000000000000000000230262500000000000000000000000006159344600000000000000000000230250000000000000000000000000005870550500000000000000000000230237500000000000000000000000005669185400000000000000000000230225000000000000000000000000004811657900000000000000000000230212500000000000000000000000004235251400000000000000000000230200000000000000000000000000003273976300000000000000000000230187500000000000000000000000002979989300000000000000000000230175000000000000000000000000003020865400000000000000000000230162500000000000000000000000003851803700000000000000000000230150000000000000000000000000005056766400000000000000000000230137500000000000000000000000006578248600000000000000000000230125000000000000000000000000009345408800000000000000000000230112500000000000000000000000007861404000000000000000000000230100000000000000000000000000005012563400000000000000000000230087500000000000000000000000004453597100000000000000000000230075000000000000000000000000007626739100000000000000000000230062500000000000000000000000006368260100000000000000000000230050000000000000000000000000003786187300000000000000000000230037500000000000000000000000003957386900000000000000000000230025000000000000000000000000002841197200000000000000000000230012500000000000000000000000003488396400000000000000000000230000000000000000000000000000004214564300000000000000000000229987500000000000000000000000005255527600000000000000000000229975000000000000000000000000008742934700000000000000000000229962500000000000000000000000006068867100000000000000000000229950000000000000000000000000004334772100000000000000000000229937500000000000000000000000006493359100000000000000000000229925000000000000000000000000009709547500000000000000000000229912500000000000000000000000008072417500000000000000000000229900000000000000000000000000005597301000000000000000000000229887500000000000000000000000004387586400000000000000000000229875000000000000000000000000003255041400000000000000000000229862500000000000000000000000003055952500000000000000000000229850000000000000000000000000003003679600000000000000000000229837500000000000000000000000003579512000000000000000000000229825000000000000000000000000004293388100000000000000000000229812500000000000000000000000005359376700000000000000000000229800000000000000000000,
    1650412300000000000000000000231387500000000000000000000000001675357400000000000000000000231375000000000000000000000000001768769700000000000000000000231362500000000000000000000000001784151100000000000000000000231350000000000000000000000000001772729200000000000000000000231337500000000000000000000000001787873800000000000000000000231325000000000000000000000000001643538300000000000000000000231312500000000000000000000000001885359400000000000000000000231300000000000000000000000000001814803100000000000000000000231287500000000000000000000000001644786000000000000000000000231275000000000000000000000000001666600900000000000000000000231262500000000000000000000000001770749900000000000000000000231250000000000000000000000000001692561000000000000000000000231237500000000000000000000000001768092100000000000000000000231225000000000000000000000000001614663600000000000000000000231212500000000000000000000000001565239400000000000000000000231200000000000000000000000000001553443800000000000000000000231187500000000000000000000000001647164500000000000000000000231175000000000000000000000000001648315500000000000000000000231162500000000000000000000000001551216800000000000000000000231150000000000000000000000000001642763400000000000000000000231137500000000000000000000000001649324200000000000000000000231125000000000000000000000000001552328100000000000000000000231112500000000000000000000000001569178000000000000000000000231100000000000000000000000000001665504600000000000000000000231087500000000000000000000000001546387900000000000000000000231075000000000000000000000000001623992800000000000000000000231062500000000000000000000000001811704300000000000000000000231050000000000000000000000000001778090400000000000000000000231037500000000000000000000000001730748500000000000000000000231025000000000000000000000000001658469500000000000000000000231012500000000000000000000000001639300600000000000000000000231000000000000000000000000000001649567500000000000000000000230987500000000000000000000000001591774500000000000000000000230975000000000000000000000000001747116800000000000000000000230962500000000000000000000000001663802500000000000000000000230950000000000000000000000000001668611700000000000000000000230937500000000000000000000000001707094200000000000000000000230925000000000000000000000000001763626700000000000000000000230912500000000000000000000000001908527700000000000000000000230900000000000000000000000000001857921200000000000000000000230887500000000000000000000000001715276600000000000000000000230875000000000000000000000000001652502300000000000000000000230862500000000000000000000000001681567700000000000000000000230850000000000000000000000000001611756000000000000000000000230837500000000000000000000000001639873500000000000000000000230825000000000000000000000000001597630800000000000000000000230812500000000000000000000000001695870800000000000000000000230800000000000000000000000000001669974500000000000000000000230787500000000000000000000000001666327500000000000000000000230775000000000000000000000000001653737700000000000000000000230762500000000000000000000000001714154600000000000000000000230750000000000000000000000000001772056600000000000000000000230737500000000000000000000000001734559800000000000000000000230725000000000000000000000000001583324700000000000000000000230712500000000000000000000000001629437400000000000000000000230700000000000000000000000000001642792000000000000000000000230687500000000000000000000000001631245400000000000000000000230675000000000000000000000000001790262400000000000000000000230662500000000000000000000000001686813500000000000000000000230650000000000000000000000000001625438600000000000000000000230637500000000000000000000000001700786800000000000000000000230625000000000000000000000000001847813100000000000000000000230612500000000000000000000000001835795800000000000000000000230600000000000000000000,
    1611021600000000000000000000232187500000000000000000000000001752534900000000000000000000232175000000000000000000000000001716062400000000000000000000232162500000000000000000000000001758643500000000000000000000232150000000000000000000000000001698784200000000000000000000232137500000000000000000000000001731197600000000000000000000232125000000000000000000000000001743080200000000000000000000232112500000000000000000000000001704900900000000000000000000232100000000000000000000000000001622059900000000000000000000232087500000000000000000000000001542848400000000000000000000232075000000000000000000000000001705680000000000000000000000232062500000000000000000000000001740255700000000000000000000232050000000000000000000000000001760108400000000000000000000232037500000000000000000000000001712768800000000000000000000232025000000000000000000000000001811711300000000000000000000232012500000000000000000000000001840751000000000000000000000232000000000000000000000000000001874159800000000000000000000231987500000000000000000000000001683012800000000000000000000231975000000000000000000000000001723604100000000000000000000231962500000000000000000000000001720251600000000000000000000231950000000000000000000000000001711075700000000000000000000231937500000000000000000000000001761838900000000000000000000231925000000000000000000000000001809484500000000000000000000231912500000000000000000000000001788376300000000000000000000231900000000000000000000000000001680019800000000000000000000231887500000000000000000000000001735401000000000000000000000231875000000000000000000000000001722288700000000000000000000231862500000000000000000000000001572198100000000000000000000231850000000000000000000000000001629281800000000000000000000231837500000000000000000000000001763967100000000000000000000231825000000000000000000000000001823616000000000000000000000231812500000000000000000000000001676097000000000000000000000231800000000000000000000000000001707826000000000000000000000231787500000000000000000000000001654174400000000000000000000231775000000000000000000000000001736282300000000000000000000231762500000000000000000000000001764605100000000000000000000231750000000000000000000000000001599031700000000000000000000231737500000000000000000000000001597383200000000000000000000231725000000000000000000000000001685669500000000000000000000231712500000000000000000000000001876939500000000000000000000231700000000000000000000000000001918526200000000000000000000231687500000000000000000000000001647404300000000000000000000231675000000000000000000000000001777054500000000000000000000231662500000000000000000000000001665434200000000000000000000231650000000000000000000000000001627792000000000000000000000231637500000000000000000000000001735394300000000000000000000231625000000000000000000000000001678958500000000000000000000231612500000000000000000000000001722372400000000000000000000231600000000000000000000000000001509804900000000000000000000231587500000000000000000000000001601176800000000000000000000231575000000000000000000000000001674936500000000000000000000231562500000000000000000000000001653679100000000000000000000231550000000000000000000000000001915935400000000000000000000231537500000000000000000000000001956018900000000000000000000231525000000000000000000000000001871371600000000000000000000231512500000000000000000000000001794125200000000000000000000231500000000000000000000000000001740763500000000000000000000231487500000000000000000000000001716950500000000000000000000231475000000000000000000000000001735674300000000000000000000231462500000000000000000000000001688234100000000000000000000231450000000000000000000000000001805894000000000000000000000231437500000000000000000000000001651229800000000000000000000231425000000000000000000000000001586226900000000000000000000231412500000000000000000000000001716247100000000000000000000231400000000000000000000,
    1649101200000000000000000000232987500000000000000000000000001686276000000000000000000000232975000000000000000000000000001799123200000000000000000000232962500000000000000000000000001865530800000000000000000000232950000000000000000000000000001836062000000000000000000000232937500000000000000000000000001778520300000000000000000000232925000000000000000000000000001600567000000000000000000000232912500000000000000000000000001524438900000000000000000000232900000000000000000000000000001607770900000000000000000000232887500000000000000000000000001694115000000000000000000000232875000000000000000000000000001601106600000000000000000000232862500000000000000000000000001672907400000000000000000000232850000000000000000000000000001707815300000000000000000000232837500000000000000000000000001722050900000000000000000000232825000000000000000000000000001734130800000000000000000000232812500000000000000000000000001703895800000000000000000000232800000000000000000000000000001802909300000000000000000000232787500000000000000000000000001817202900000000000000000000232775000000000000000000000000001745348100000000000000000000232762500000000000000000000000001695473600000000000000000000232750000000000000000000000000001713151900000000000000000000232737500000000000000000000000001838945000000000000000000000232725000000000000000000000000001801066500000000000000000000232712500000000000000000000000001694621200000000000000000000232700000000000000000000000000001758503000000000000000000000232687500000000000000000000000001736154100000000000000000000232675000000000000000000000000001500855700000000000000000000232662500000000000000000000000001551539200000000000000000000232650000000000000000000000000001657677200000000000000000000232637500000000000000000000000001783961100000000000000000000232625000000000000000000000000001732702500000000000000000000232612500000000000000000000000001788126100000000000000000000232600000000000000000000000000001765309900000000000000000000232587500000000000000000000000001773228900000000000000000000232575000000000000000000000000001681054400000000000000000000232562500000000000000000000000001599648300000000000000000000232550000000000000000000000000001678656500000000000000000000232537500000000000000000000000001742822000000000000000000000232525000000000000000000000000001717089200000000000000000000232512500000000000000000000000001679846000000000000000000000232500000000000000000000000000001816715000000000000000000000232487500000000000000000000000001803269200000000000000000000232475000000000000000000000000001779479900000000000000000000232462500000000000000000000000001694990900000000000000000000232450000000000000000000000000001762484100000000000000000000232437500000000000000000000000001757721800000000000000000000232425000000000000000000000000001796777400000000000000000000232412500000000000000000000000001823379300000000000000000000232400000000000000000000000000001671524100000000000000000000232387500000000000000000000000001683341400000000000000000000232375000000000000000000000000001625425100000000000000000000232362500000000000000000000000001688813500000000000000000000232350000000000000000000000000001783044100000000000000000000232337500000000000000000000000001779544300000000000000000000232325000000000000000000000000001779670000000000000000000000232312500000000000000000000000001635409900000000000000000000232300000000000000000000000000001733630500000000000000000000232287500000000000000000000000001753403900000000000000000000232275000000000000000000000000001730126900000000000000000000232262500000000000000000000000001657616600000000000000000000232250000000000000000000000000001675807800000000000000000000232237500000000000000000000000001839169300000000000000000000232225000000000000000000000000001762983300000000000000000000232212500000000000000000000000001563685000000000000000000000232200000000000000000000,
    1832330900000000000000000000233787500000000000000000000000001770402400000000000000000000233775000000000000000000000000001676532800000000000000000000233762500000000000000000000000001621796900000000000000000000233750000000000000000000000000001837104100000000000000000000233737500000000000000000000000001849865700000000000000000000233725000000000000000000000000001694714700000000000000000000233712500000000000000000000000001669787300000000000000000000233700000000000000000000000000001895160300000000000000000000233687500000000000000000000000001974380900000000000000000000233675000000000000000000000000001912282000000000000000000000233662500000000000000000000000001911031600000000000000000000233650000000000000000000000000001853073300000000000000000000233637500000000000000000000000001779165900000000000000000000233625000000000000000000000000001754024900000000000000000000233612500000000000000000000000001763879100000000000000000000233600000000000000000000000000001738312600000000000000000000233587500000000000000000000000001856837700000000000000000000233575000000000000000000000000001814421200000000000000000000233562500000000000000000000000001657247100000000000000000000233550000000000000000000000000001728705300000000000000000000233537500000000000000000000000001795009900000000000000000000233525000000000000000000000000001698238400000000000000000000233512500000000000000000000000001641863300000000000000000000233500000000000000000000000000001759946600000000000000000000233487500000000000000000000000001679226400000000000000000000233475000000000000000000000000001705288300000000000000000000233462500000000000000000000000001694722400000000000000000000233450000000000000000000000000001753486000000000000000000000233437500000000000000000000000001754879300000000000000000000233425000000000000000000000000001744914700000000000000000000233412500000000000000000000000001869697700000000000000000000233400000000000000000000000000001904931500000000000000000000233387500000000000000000000000001813091100000000000000000000233375000000000000000000000000001888614200000000000000000000233362500000000000000000000000002166538900000000000000000000233350000000000000000000000000002563529900000000000000000000233337500000000000000000000000002206744800000000000000000000233325000000000000000000000000001897807300000000000000000000233312500000000000000000000000001739190600000000000000000000233300000000000000000000000000001722414200000000000000000000233287500000000000000000000000001767461200000000000000000000233275000000000000000000000000001640834100000000000000000000233262500000000000000000000000001600684200000000000000000000233250000000000000000000000000001674942900000000000000000000233237500000000000000000000000001650577200000000000000000000233225000000000000000000000000001746168000000000000000000000233212500000000000000000000000001794576200000000000000000000233200000000000000000000000000001714723100000000000000000000233187500000000000000000000000001599546400000000000000000000233175000000000000000000000000001668933100000000000000000000233162500000000000000000000000001817890000000000000000000000233150000000000000000000000000001772138600000000000000000000233137500000000000000000000000001715120000000000000000000000233125000000000000000000000000001713130300000000000000000000233112500000000000000000000000001798647800000000000000000000233100000000000000000000000000001782583800000000000000000000233087500000000000000000000000001706175100000000000000000000233075000000000000000000000000001825629800000000000000000000233062500000000000000000000000001728420700000000000000000000233050000000000000000000000000001570575100000000000000000000233037500000000000000000000000001577599300000000000000000000233025000000000000000000000000001594286400000000000000000000233012500000000000000000000000001717711900000000000000000000233000000000000000000000,
    1726437400000000000000000000234587500000000000000000000000001677439200000000000000000000234575000000000000000000000000001633723000000000000000000000234562500000000000000000000000001724788900000000000000000000234550000000000000000000000000001826982500000000000000000000234537500000000000000000000000001773971800000000000000000000234525000000000000000000000000001825265200000000000000000000234512500000000000000000000000001824404700000000000000000000234500000000000000000000000000001848919100000000000000000000234487500000000000000000000000001794458200000000000000000000234475000000000000000000000000001714076300000000000000000000234462500000000000000000000000001768931800000000000000000000234450000000000000000000000000001632974100000000000000000000234437500000000000000000000000001725127600000000000000000000234425000000000000000000000000001744648500000000000000000000234412500000000000000000000000001757769600000000000000000000234400000000000000000000000000001607716900000000000000000000234387500000000000000000000000001670618600000000000000000000234375000000000000000000000000001685877500000000000000000000234362500000000000000000000000001767660300000000000000000000234350000000000000000000000000001848722900000000000000000000234337500000000000000000000000001760950100000000000000000000234325000000000000000000000000001806771500000000000000000000234312500000000000000000000000001738452200000000000000000000234300000000000000000000000000001667091200000000000000000000234287500000000000000000000000001631192600000000000000000000234275000000000000000000000000001879767900000000000000000000234262500000000000000000000000001778323800000000000000000000234250000000000000000000000000001663576800000000000000000000234237500000000000000000000000001751814000000000000000000000234225000000000000000000000000001835153800000000000000000000234212500000000000000000000000001739425900000000000000000000234200000000000000000000000000001822324900000000000000000000234187500000000000000000000000001708954100000000000000000000234175000000000000000000000000001648519000000000000000000000234162500000000000000000000000001870292600000000000000000000234150000000000000000000000000001912150400000000000000000000234137500000000000000000000000001844668400000000000000000000234125000000000000000000000000001810906300000000000000000000234112500000000000000000000000001762354300000000000000000000234100000000000000000000000000001690823000000000000000000000234087500000000000000000000000001628731900000000000000000000234075000000000000000000000000001749963700000000000000000000234062500000000000000000000000001810797400000000000000000000234050000000000000000000000000001615535800000000000000000000234037500000000000000000000000001808163500000000000000000000234025000000000000000000000000001798300600000000000000000000234012500000000000000000000000001742938200000000000000000000234000000000000000000000000000001743677600000000000000000000233987500000000000000000000000001614134800000000000000000000233975000000000000000000000000001777705700000000000000000000233962500000000000000000000000001722892600000000000000000000233950000000000000000000000000001645328800000000000000000000233937500000000000000000000000001674951900000000000000000000233925000000000000000000000000001932758500000000000000000000233912500000000000000000000000002022048200000000000000000000233900000000000000000000000000001810195500000000000000000000233887500000000000000000000000001743458000000000000000000000233875000000000000000000000000001783685700000000000000000000233862500000000000000000000000001817995700000000000000000000233850000000000000000000000000001741070500000000000000000000233837500000000000000000000000001798158300000000000000000000233825000000000000000000000000001823353800000000000000000000233812500000000000000000000000001883167300000000000000000000233800000000000000000000,
    1938862200000000000000000000235387500000000000000000000000001984812800000000000000000000235375000000000000000000000000001834120200000000000000000000235362500000000000000000000000001779226100000000000000000000235350000000000000000000000000001615625600000000000000000000235337500000000000000000000000001655464100000000000000000000235325000000000000000000000000001781778400000000000000000000235312500000000000000000000000001823159600000000000000000000235300000000000000000000000000001955042900000000000000000000235287500000000000000000000000001816419400000000000000000000235275000000000000000000000000001705064100000000000000000000235262500000000000000000000000001681643200000000000000000000235250000000000000000000000000001716807100000000000000000000235237500000000000000000000000001732014200000000000000000000235225000000000000000000000000001675564800000000000000000000235212500000000000000000000000001787632900000000000000000000235200000000000000000000000000001697430100000000000000000000235187500000000000000000000000001639238600000000000000000000235175000000000000000000000000001794364300000000000000000000235162500000000000000000000000001847699800000000000000000000235150000000000000000000000000001845212500000000000000000000235137500000000000000000000000001840236200000000000000000000235125000000000000000000000000001718496100000000000000000000235112500000000000000000000000001695625900000000000000000000235100000000000000000000000000001740924200000000000000000000235087500000000000000000000000001821113300000000000000000000235075000000000000000000000000001796835600000000000000000000235062500000000000000000000000001749841900000000000000000000235050000000000000000000000000001722740900000000000000000000235037500000000000000000000000001762664900000000000000000000235025000000000000000000000000001646550000000000000000000000235012500000000000000000000000001646297600000000000000000000235000000000000000000000000000001723460200000000000000000000234987500000000000000000000000001676822200000000000000000000234975000000000000000000000000001788910500000000000000000000234962500000000000000000000000001673516800000000000000000000234950000000000000000000000000001691956200000000000000000000234937500000000000000000000000001770327200000000000000000000234925000000000000000000000000001674023600000000000000000000234912500000000000000000000000001591247600000000000000000000234900000000000000000000000000001614815400000000000000000000234887500000000000000000000000001778987900000000000000000000234875000000000000000000000000001805904300000000000000000000234862500000000000000000000000001777435600000000000000000000234850000000000000000000000000001789913200000000000000000000234837500000000000000000000000001678529500000000000000000000234825000000000000000000000000001597859800000000000000000000234812500000000000000000000000001699638700000000000000000000234800000000000000000000000000001746166000000000000000000000234787500000000000000000000000001693922900000000000000000000234775000000000000000000000000001719645500000000000000000000234762500000000000000000000000001842592600000000000000000000234750000000000000000000000000001760228800000000000000000000234737500000000000000000000000001772382300000000000000000000234725000000000000000000000000001678673100000000000000000000234712500000000000000000000000001744677100000000000000000000234700000000000000000000000000001687032700000000000000000000234687500000000000000000000000001711249000000000000000000000234675000000000000000000000000001633378000000000000000000000234662500000000000000000000000001699798000000000000000000000234650000000000000000000000000001733022200000000000000000000234637500000000000000000000000001631171400000000000000000000234625000000000000000000000000001710662700000000000000000000234612500000000000000000000000001769112300000000000000000000234600000000000000000000,
    1699742000000000000000000000236187500000000000000000000000001727189400000000000000000000236175000000000000000000000000001683045100000000000000000000236162500000000000000000000000001620005200000000000000000000236150000000000000000000000000001818379600000000000000000000236137500000000000000000000000001765561900000000000000000000236125000000000000000000000000001668410600000000000000000000236112500000000000000000000000001710517700000000000000000000236100000000000000000000000000001661356800000000000000000000236087500000000000000000000000001627272800000000000000000000236075000000000000000000000000001833022700000000000000000000236062500000000000000000000000001788729600000000000000000000236050000000000000000000000000001741439100000000000000000000236037500000000000000000000000001787715400000000000000000000236025000000000000000000000000001679739600000000000000000000236012500000000000000000000000001548134400000000000000000000236000000000000000000000000000001624518500000000000000000000235987500000000000000000000000001609443600000000000000000000235975000000000000000000000000001720486500000000000000000000235962500000000000000000000000001731335800000000000000000000235950000000000000000000000000001791669000000000000000000000235937500000000000000000000000001727830700000000000000000000235925000000000000000000000000001666040100000000000000000000235912500000000000000000000000001744907000000000000000000000235900000000000000000000000000001747645500000000000000000000235887500000000000000000000000001775795200000000000000000000235875000000000000000000000000001759322000000000000000000000235862500000000000000000000000001730745800000000000000000000235850000000000000000000000000001809146800000000000000000000235837500000000000000000000000001752776800000000000000000000235825000000000000000000000000001783130100000000000000000000235812500000000000000000000000001767315400000000000000000000235800000000000000000000000000001844578600000000000000000000235787500000000000000000000000001782072600000000000000000000235775000000000000000000000000001719346000000000000000000000235762500000000000000000000000001688834200000000000000000000235750000000000000000000000000001678097800000000000000000000235737500000000000000000000000001681563800000000000000000000235725000000000000000000000000001653392100000000000000000000235712500000000000000000000000001680881900000000000000000000235700000000000000000000000000001665103100000000000000000000235687500000000000000000000000001717053300000000000000000000235675000000000000000000000000001753234100000000000000000000235662500000000000000000000000001738498900000000000000000000235650000000000000000000000000001742861300000000000000000000235637500000000000000000000000001728238500000000000000000000235625000000000000000000000000001912066800000000000000000000235612500000000000000000000000001857666800000000000000000000235600000000000000000000000000001806560300000000000000000000235587500000000000000000000000001801056700000000000000000000235575000000000000000000000000001700475800000000000000000000235562500000000000000000000000001751598500000000000000000000235550000000000000000000000000001830274200000000000000000000235537500000000000000000000000001764834600000000000000000000235525000000000000000000000000001723449700000000000000000000235512500000000000000000000000001810663600000000000000000000235500000000000000000000000000001850054900000000000000000000235487500000000000000000000000001760280800000000000000000000235475000000000000000000000000001762893100000000000000000000235462500000000000000000000000001707068400000000000000000000235450000000000000000000000000001711311800000000000000000000235437500000000000000000000000001747410000000000000000000000235425000000000000000000000000001723193800000000000000000000235412500000000000000000000000001772102100000000000000000000235400000000000000000000,
    1726828700000000000000000000236987500000000000000000000000001733214800000000000000000000236975000000000000000000000000001839669700000000000000000000236962500000000000000000000000001778203700000000000000000000236950000000000000000000000000001709048000000000000000000000236937500000000000000000000000001819717800000000000000000000236925000000000000000000000000001791364600000000000000000000236912500000000000000000000000001755596600000000000000000000236900000000000000000000000000001726855500000000000000000000236887500000000000000000000000001711546300000000000000000000236875000000000000000000000000001840141200000000000000000000236862500000000000000000000000001803757300000000000000000000236850000000000000000000000000001686406700000000000000000000236837500000000000000000000000001768059100000000000000000000236825000000000000000000000000001802998400000000000000000000236812500000000000000000000000001712163400000000000000000000236800000000000000000000000000001725385000000000000000000000236787500000000000000000000000001681721500000000000000000000236775000000000000000000000000001776929400000000000000000000236762500000000000000000000000001959279400000000000000000000236750000000000000000000000000001866686100000000000000000000236737500000000000000000000000001885967700000000000000000000236725000000000000000000000000001773329000000000000000000000236712500000000000000000000000001658199300000000000000000000236700000000000000000000000000001684565600000000000000000000236687500000000000000000000000001891437400000000000000000000236675000000000000000000000000001781394100000000000000000000236662500000000000000000000000001789566300000000000000000000236650000000000000000000000000001812837600000000000000000000236637500000000000000000000000001844645800000000000000000000236625000000000000000000000000001831548400000000000000000000236612500000000000000000000000001801030300000000000000000000236600000000000000000000000000001735660100000000000000000000236587500000000000000000000000001704144300000000000000000000236575000000000000000000000000001478740400000000000000000000236562500000000000000000000000001658705200000000000000000000236550000000000000000000000000001751343400000000000000000000236537500000000000000000000000001766782900000000000000000000236525000000000000000000000000001898139200000000000000000000236512500000000000000000000000001907616200000000000000000000236500000000000000000000000000001779869900000000000000000000236487500000000000000000000000001858546700000000000000000000236475000000000000000000000000001894220000000000000000000000236462500000000000000000000000001702511800000000000000000000236450000000000000000000000000001792514100000000000000000000236437500000000000000000000000001583968600000000000000000000236425000000000000000000000000001565391600000000000000000000236412500000000000000000000000001752150400000000000000000000236400000000000000000000000000001795189400000000000000000000236387500000000000000000000000001879908300000000000000000000236375000000000000000000000000001809273600000000000000000000236362500000000000000000000000001716911900000000000000000000236350000000000000000000000000001755444000000000000000000000236337500000000000000000000000001875088400000000000000000000236325000000000000000000000000001750661600000000000000000000236312500000000000000000000000001839952900000000000000000000236300000000000000000000000000001776190500000000000000000000236287500000000000000000000000001800529800000000000000000000236275000000000000000000000000001672629700000000000000000000236262500000000000000000000000001576239300000000000000000000236250000000000000000000000000001711955400000000000000000000236237500000000000000000000000001788397000000000000000000000236225000000000000000000000000001770770900000000000000000000236212500000000000000000000000001702683200000000000000000000236200000000000000000000,
    1642079700000000000000000000237787500000000000000000000000001712779500000000000000000000237775000000000000000000000000001762915500000000000000000000237762500000000000000000000000001823537300000000000000000000237750000000000000000000000000001721887600000000000000000000237737500000000000000000000000001608821700000000000000000000237725000000000000000000000000001814400400000000000000000000237712500000000000000000000000001817580200000000000000000000237700000000000000000000000000001750890500000000000000000000237687500000000000000000000000001747250800000000000000000000237675000000000000000000000000001766031700000000000000000000237662500000000000000000000000001829800500000000000000000000237650000000000000000000000000001708960000000000000000000000237637500000000000000000000000001708823100000000000000000000237625000000000000000000000000001634723400000000000000000000237612500000000000000000000000001618249700000000000000000000237600000000000000000000000000001680420200000000000000000000237587500000000000000000000000001805454500000000000000000000237575000000000000000000000000001836416800000000000000000000237562500000000000000000000000002067680500000000000000000000237550000000000000000000000000002011134900000000000000000000237537500000000000000000000000001863286100000000000000000000237525000000000000000000000000001762061300000000000000000000237512500000000000000000000000001850842000000000000000000000237500000000000000000000000000001685313900000000000000000000237487500000000000000000000000001632940600000000000000000000237475000000000000000000000000001622474600000000000000000000237462500000000000000000000000001790752800000000000000000000237450000000000000000000000000001736950300000000000000000000237437500000000000000000000000001692490400000000000000000000237425000000000000000000000000001578674900000000000000000000237412500000000000000000000000001769752800000000000000000000237400000000000000000000000000001872539100000000000000000000237387500000000000000000000000001734538600000000000000000000237375000000000000000000000000001767398900000000000000000000237362500000000000000000000000001699274600000000000000000000237350000000000000000000000000001777698200000000000000000000237337500000000000000000000000001759720400000000000000000000237325000000000000000000000000001933949500000000000000000000237312500000000000000000000000001874883800000000000000000000237300000000000000000000000000001739933300000000000000000000237287500000000000000000000000001816348000000000000000000000237275000000000000000000000000001721465100000000000000000000237262500000000000000000000000001602086100000000000000000000237250000000000000000000000000001682610200000000000000000000237237500000000000000000000000001732457900000000000000000000237225000000000000000000000000001849241900000000000000000000237212500000000000000000000000001820661400000000000000000000237200000000000000000000000000001725422000000000000000000000237187500000000000000000000000001742514400000000000000000000237175000000000000000000000000001812590600000000000000000000237162500000000000000000000000001768944600000000000000000000237150000000000000000000000000001756520200000000000000000000237137500000000000000000000000001727799900000000000000000000237125000000000000000000000000001724733500000000000000000000237112500000000000000000000000001865351000000000000000000000237100000000000000000000000000001772170300000000000000000000237087500000000000000000000000001724359900000000000000000000237075000000000000000000000000001741359500000000000000000000237062500000000000000000000000001818544200000000000000000000237050000000000000000000000000001689722000000000000000000000237037500000000000000000000000001697122500000000000000000000237025000000000000000000000000001749340600000000000000000000237012500000000000000000000000001738653000000000000000000000237000000000000000000000,
    1706574700000000000000000000238587500000000000000000000000001777000100000000000000000000238575000000000000000000000000001726792700000000000000000000238562500000000000000000000000001675013400000000000000000000238550000000000000000000000000001614632400000000000000000000238537500000000000000000000000001797084800000000000000000000238525000000000000000000000000001788320000000000000000000000238512500000000000000000000000001806670000000000000000000000238500000000000000000000000000001820084800000000000000000000238487500000000000000000000000001847678600000000000000000000238475000000000000000000000000001950972900000000000000000000238462500000000000000000000000001795814000000000000000000000238450000000000000000000000000001751575500000000000000000000238437500000000000000000000000001748676500000000000000000000238425000000000000000000000000001608372200000000000000000000238412500000000000000000000000001804380100000000000000000000238400000000000000000000000000001775659300000000000000000000238387500000000000000000000000001643995200000000000000000000238375000000000000000000000000001634423100000000000000000000238362500000000000000000000000001720163700000000000000000000238350000000000000000000000000001986442400000000000000000000238337500000000000000000000000001763460300000000000000000000238325000000000000000000000000001605243100000000000000000000238312500000000000000000000000001695650100000000000000000000238300000000000000000000000000001797624200000000000000000000238287500000000000000000000000001715361400000000000000000000238275000000000000000000000000001884515200000000000000000000238262500000000000000000000000001771119100000000000000000000238250000000000000000000000000001865057400000000000000000000238237500000000000000000000000001867135100000000000000000000238225000000000000000000000000001796465800000000000000000000238212500000000000000000000000001862010700000000000000000000238200000000000000000000000000001804136500000000000000000000238187500000000000000000000000001767369700000000000000000000238175000000000000000000000000001726794800000000000000000000238162500000000000000000000000001748436300000000000000000000238150000000000000000000000000001784834000000000000000000000238137500000000000000000000000001796534800000000000000000000238125000000000000000000000000001946364100000000000000000000238112500000000000000000000000001949446900000000000000000000238100000000000000000000000000001750994500000000000000000000238087500000000000000000000000001741802000000000000000000000238075000000000000000000000000001804545800000000000000000000238062500000000000000000000000001883047400000000000000000000238050000000000000000000000000001755740800000000000000000000238037500000000000000000000000001725140700000000000000000000238025000000000000000000000000001737182600000000000000000000238012500000000000000000000000001739072300000000000000000000238000000000000000000000000000001773094300000000000000000000237987500000000000000000000000001661376800000000000000000000237975000000000000000000000000001841206700000000000000000000237962500000000000000000000000001829127200000000000000000000237950000000000000000000000000001863713100000000000000000000237937500000000000000000000000001845575100000000000000000000237925000000000000000000000000001746201200000000000000000000237912500000000000000000000000001712976000000000000000000000237900000000000000000000000000001660673100000000000000000000237887500000000000000000000000001592840800000000000000000000237875000000000000000000000000001604810000000000000000000000237862500000000000000000000000001775075700000000000000000000237850000000000000000000000000001739959600000000000000000000237837500000000000000000000000001824862000000000000000000000237825000000000000000000000000001804214800000000000000000000237812500000000000000000000000001635470500000000000000000000237800000000000000000000,
    1792957100000000000000000000239387500000000000000000000000002968873800000000000000000000239375000000000000000000000000003947909200000000000000000000239362500000000000000000000000002202345000000000000000000000239350000000000000000000000000001886484700000000000000000000239337500000000000000000000000001759180600000000000000000000239325000000000000000000000000001687425600000000000000000000239312500000000000000000000000001830105600000000000000000000239300000000000000000000000000001825201700000000000000000000239287500000000000000000000000001837917000000000000000000000239275000000000000000000000000001846829800000000000000000000239262500000000000000000000000001923474600000000000000000000239250000000000000000000000000001842227100000000000000000000239237500000000000000000000000001841391100000000000000000000239225000000000000000000000000001823512200000000000000000000239212500000000000000000000000001901480100000000000000000000239200000000000000000000000000001771869100000000000000000000239187500000000000000000000000001659615800000000000000000000239175000000000000000000000000001740399800000000000000000000239162500000000000000000000000001716922000000000000000000000239150000000000000000000000000001703481800000000000000000000239137500000000000000000000000001735457900000000000000000000239125000000000000000000000000001777396300000000000000000000239112500000000000000000000000001887483200000000000000000000239100000000000000000000000000001821842000000000000000000000239087500000000000000000000000001738566600000000000000000000239075000000000000000000000000001815236700000000000000000000239062500000000000000000000000001863819400000000000000000000239050000000000000000000000000001709656700000000000000000000239037500000000000000000000000001729999200000000000000000000239025000000000000000000000000001704703900000000000000000000239012500000000000000000000000001684001100000000000000000000239000000000000000000000000000001604416900000000000000000000238987500000000000000000000000001774651100000000000000000000238975000000000000000000000000001909005100000000000000000000238962500000000000000000000000001927686700000000000000000000238950000000000000000000000000001884049300000000000000000000238937500000000000000000000000001914921200000000000000000000238925000000000000000000000000001696089100000000000000000000238912500000000000000000000000001745360800000000000000000000238900000000000000000000000000001790875200000000000000000000238887500000000000000000000000001834841300000000000000000000238875000000000000000000000000001773456300000000000000000000238862500000000000000000000000001735448700000000000000000000238850000000000000000000000000001786180000000000000000000000238837500000000000000000000000001852846200000000000000000000238825000000000000000000000000001918519400000000000000000000238812500000000000000000000000001907676900000000000000000000238800000000000000000000000000001889665200000000000000000000238787500000000000000000000000001952189500000000000000000000238775000000000000000000000000001842136700000000000000000000238762500000000000000000000000001813177200000000000000000000238750000000000000000000000000001759897000000000000000000000238737500000000000000000000000001628907600000000000000000000238725000000000000000000000000001752099900000000000000000000238712500000000000000000000000001900385700000000000000000000238700000000000000000000000000001812505900000000000000000000238687500000000000000000000000001776490400000000000000000000238675000000000000000000000000001735800600000000000000000000238662500000000000000000000000001814914400000000000000000000238650000000000000000000000000001697811400000000000000000000238637500000000000000000000000001719637400000000000000000000238625000000000000000000000000001889668900000000000000000000238612500000000000000000000000001864280100000000000000000000238600000000000000000000,
    1772849800000000000000000000240187500000000000000000000000001937626400000000000000000000240175000000000000000000000000001914786900000000000000000000240162500000000000000000000000001858539000000000000000000000240150000000000000000000000000001845807800000000000000000000240137500000000000000000000000001653334200000000000000000000240125000000000000000000000000001752251900000000000000000000240112500000000000000000000000001730729300000000000000000000240100000000000000000000000000001699673200000000000000000000240087500000000000000000000000001797850400000000000000000000240075000000000000000000000000001702726900000000000000000000240062500000000000000000000000001668016100000000000000000000240050000000000000000000000000001685908400000000000000000000240037500000000000000000000000001755934400000000000000000000240025000000000000000000000000001788137900000000000000000000240012500000000000000000000000001831600700000000000000000000240000000000000000000000000000001790626300000000000000000000239987500000000000000000000000001910401400000000000000000000239975000000000000000000000000001866310400000000000000000000239962500000000000000000000000001942738300000000000000000000239950000000000000000000000000001844444200000000000000000000239937500000000000000000000000001774148600000000000000000000239925000000000000000000000000001838199100000000000000000000239912500000000000000000000000001789753800000000000000000000239900000000000000000000000000001793528800000000000000000000239887500000000000000000000000001836360400000000000000000000239875000000000000000000000000001802965200000000000000000000239862500000000000000000000000001823800000000000000000000000239850000000000000000000000000001790336400000000000000000000239837500000000000000000000000001626045500000000000000000000239825000000000000000000000000001866601800000000000000000000239812500000000000000000000000001809293000000000000000000000239800000000000000000000000000001817288200000000000000000000239787500000000000000000000000001844951700000000000000000000239775000000000000000000000000001750054500000000000000000000239762500000000000000000000000001672080300000000000000000000239750000000000000000000000000001794033800000000000000000000239737500000000000000000000000001902887600000000000000000000239725000000000000000000000000001853298400000000000000000000239712500000000000000000000000001830091000000000000000000000239700000000000000000000000000001990730400000000000000000000239687500000000000000000000000002001163500000000000000000000239675000000000000000000000000001803613800000000000000000000239662500000000000000000000000001814355400000000000000000000239650000000000000000000000000001845567800000000000000000000239637500000000000000000000000001882712200000000000000000000239625000000000000000000000000001943360600000000000000000000239612500000000000000000000000001825727700000000000000000000239600000000000000000000000000001726881800000000000000000000239587500000000000000000000000001771326900000000000000000000239575000000000000000000000000001891793500000000000000000000239562500000000000000000000000001821973800000000000000000000239550000000000000000000000000001594514000000000000000000000239537500000000000000000000000001767423100000000000000000000239525000000000000000000000000001744319700000000000000000000239512500000000000000000000000001734685200000000000000000000239500000000000000000000000000001872503300000000000000000000239487500000000000000000000000001760793200000000000000000000239475000000000000000000000000001675078100000000000000000000239462500000000000000000000000001618770500000000000000000000239450000000000000000000000000001688841700000000000000000000239437500000000000000000000000001871828900000000000000000000239425000000000000000000000000001950747200000000000000000000239412500000000000000000000000001903311100000000000000000000239400000000000000000000,
    7225967800000000000000000000240987500000000000000000000000002611551500000000000000000000240975000000000000000000000000003751581200000000000000000000240962500000000000000000000000006439231200000000000000000000240950000000000000000000000000003302852600000000000000000000240937500000000000000000000000001822845000000000000000000000240925000000000000000000000000001927246900000000000000000000240912500000000000000000000000001903691300000000000000000000240900000000000000000000000000001808573800000000000000000000240887500000000000000000000000001813309400000000000000000000240875000000000000000000000000001695333600000000000000000000240862500000000000000000000000001708704100000000000000000000240850000000000000000000000000001810146200000000000000000000240837500000000000000000000000001757446400000000000000000000240825000000000000000000000000001733854000000000000000000000240812500000000000000000000000001598375700000000000000000000240800000000000000000000000000001650120800000000000000000000240787500000000000000000000000001698917400000000000000000000240775000000000000000000000000001638726400000000000000000000240762500000000000000000000000001606729000000000000000000000240750000000000000000000000000001655079000000000000000000000240737500000000000000000000000001697139400000000000000000000240725000000000000000000000000001865342900000000000000000000240712500000000000000000000000001976149200000000000000000000240700000000000000000000000000003009696500000000000000000000240687500000000000000000000000005570003500000000000000000000240675000000000000000000000000003672377300000000000000000000240662500000000000000000000000002081999600000000000000000000240650000000000000000000000000002261572900000000000000000000240637500000000000000000000000001847425000000000000000000000240625000000000000000000000000001813132000000000000000000000240612500000000000000000000000001830878200000000000000000000240600000000000000000000000000001770639700000000000000000000240587500000000000000000000000001722765700000000000000000000240575000000000000000000000000001813852900000000000000000000240562500000000000000000000000001773509500000000000000000000240550000000000000000000000000001543269500000000000000000000240537500000000000000000000000001803095100000000000000000000240525000000000000000000000000001850319300000000000000000000240512500000000000000000000000001962260400000000000000000000240500000000000000000000000000001708766200000000000000000000240487500000000000000000000000001737215600000000000000000000240475000000000000000000000000002058723400000000000000000000240462500000000000000000000000002022636200000000000000000000240450000000000000000000000000001816315800000000000000000000240437500000000000000000000000001828017700000000000000000000240425000000000000000000000000001812971100000000000000000000240412500000000000000000000000001816704900000000000000000000240400000000000000000000000000001612705600000000000000000000240387500000000000000000000000001564768100000000000000000000240375000000000000000000000000001698732100000000000000000000240362500000000000000000000000001790100200000000000000000000240350000000000000000000000000001808765600000000000000000000240337500000000000000000000000001796435400000000000000000000240325000000000000000000000000001694639500000000000000000000240312500000000000000000000000001682167600000000000000000000240300000000000000000000000000001739972200000000000000000000240287500000000000000000000000001635463100000000000000000000240275000000000000000000000000001637048800000000000000000000240262500000000000000000000000001792697900000000000000000000240250000000000000000000000000001839309100000000000000000000240237500000000000000000000000001913610300000000000000000000240225000000000000000000000000001806856100000000000000000000240212500000000000000000000000001728368100000000000000000000240200000000000000000000,
    1685078900000000000000000000241787500000000000000000000000001791539900000000000000000000241775000000000000000000000000001851230900000000000000000000241762500000000000000000000000001791936500000000000000000000241750000000000000000000000000001680194500000000000000000000241737500000000000000000000000001753300000000000000000000000241725000000000000000000000000001766927700000000000000000000241712500000000000000000000000001898058200000000000000000000241700000000000000000000000000001948884200000000000000000000241687500000000000000000000000001973606500000000000000000000241675000000000000000000000000001956946400000000000000000000241662500000000000000000000000001911018700000000000000000000241650000000000000000000000000001813829200000000000000000000241637500000000000000000000000001773516500000000000000000000241625000000000000000000000000001855077600000000000000000000241612500000000000000000000000001768870300000000000000000000241600000000000000000000000000002852578900000000000000000000241587500000000000000000000000003527545000000000000000000000241575000000000000000000000000001974264200000000000000000000241562500000000000000000000000001871607000000000000000000000241550000000000000000000000000001883351500000000000000000000241537500000000000000000000000001722332100000000000000000000241525000000000000000000000000001525340800000000000000000000241512500000000000000000000000001682284400000000000000000000241500000000000000000000000000001754449600000000000000000000241487500000000000000000000000001878606700000000000000000000241475000000000000000000000000005103153300000000000000000000241462500000000000000000000000005694409700000000000000000000241450000000000000000000000000002100237900000000000000000000241437500000000000000000000000001643372900000000000000000000241425000000000000000000000000001665249100000000000000000000241412500000000000000000000000001839987100000000000000000000241400000000000000000000000000001788547000000000000000000000241387500000000000000000000000001741634100000000000000000000241375000000000000000000000000001675504000000000000000000000241362500000000000000000000000001731026300000000000000000000241350000000000000000000000000001769219500000000000000000000241337500000000000000000000000001744262800000000000000000000241325000000000000000000000000001805809900000000000000000000241312500000000000000000000000001764017600000000000000000000241300000000000000000000000000001625594100000000000000000000241287500000000000000000000000001891890300000000000000000000241275000000000000000000000000001921942100000000000000000000241262500000000000000000000000001799463500000000000000000000241250000000000000000000000000001746273900000000000000000000241237500000000000000000000000001828892800000000000000000000241225000000000000000000000000001695930400000000000000000000241212500000000000000000000000001805107600000000000000000000241200000000000000000000000000001867216600000000000000000000241187500000000000000000000000001905063200000000000000000000241175000000000000000000000000001721944000000000000000000000241162500000000000000000000000001709543300000000000000000000241150000000000000000000000000001764048000000000000000000000241137500000000000000000000000001855639300000000000000000000241125000000000000000000000000001846898500000000000000000000241112500000000000000000000000001782406000000000000000000000241100000000000000000000000000001786231600000000000000000000241087500000000000000000000000001891820000000000000000000000241075000000000000000000000000001782990300000000000000000000241062500000000000000000000000001636603000000000000000000000241050000000000000000000000000001734815700000000000000000000241037500000000000000000000000001835154300000000000000000000241025000000000000000000000000001888226800000000000000000000241012500000000000000000000000006115563900000000000000000000241000000000000000000000,
    1703990000000000000000000000242587500000000000000000000000001775459100000000000000000000242575000000000000000000000000001730171800000000000000000000242562500000000000000000000000003228640300000000000000000000242550000000000000000000000000008309983200000000000000000000242537500000000000000000000000006152847500000000000000000000242525000000000000000000000000001859662400000000000000000000242512500000000000000000000000001728571600000000000000000000242500000000000000000000000000001895339300000000000000000000242487500000000000000000000000004227062100000000000000000000242475000000000000000000000000005498836700000000000000000000242462500000000000000000000000002464088400000000000000000000242450000000000000000000000000001865510500000000000000000000242437500000000000000000000000001915305700000000000000000000242425000000000000000000000000002004461800000000000000000000242412500000000000000000000000001931627400000000000000000000242400000000000000000000000000002118184900000000000000000000242387500000000000000000000000002350840000000000000000000000242375000000000000000000000000007710349000000000000000000000242362500000000000000000000000011526832000000000000000000000242350000000000000000000000000004681422600000000000000000000242337500000000000000000000000005009540600000000000000000000242325000000000000000000000000008036342100000000000000000000242312500000000000000000000000004200115600000000000000000000242300000000000000000000000000001959683400000000000000000000242287500000000000000000000000001828509900000000000000000000242275000000000000000000000000001906358400000000000000000000242262500000000000000000000000001961938700000000000000000000242250000000000000000000000000003685619600000000000000000000242237500000000000000000000000004982242000000000000000000000242225000000000000000000000000002351201300000000000000000000242212500000000000000000000000001766095300000000000000000000242200000000000000000000000000001720156600000000000000000000242187500000000000000000000000001762617800000000000000000000242175000000000000000000000000001714470700000000000000000000242162500000000000000000000000001750171100000000000000000000242150000000000000000000000000001822919100000000000000000000242137500000000000000000000000001937377900000000000000000000242125000000000000000000000000001970980000000000000000000000242112500000000000000000000000001911740400000000000000000000242100000000000000000000000000001832630600000000000000000000242087500000000000000000000000001898802100000000000000000000242075000000000000000000000000001985941500000000000000000000242062500000000000000000000000002005139600000000000000000000242050000000000000000000000000001756758300000000000000000000242037500000000000000000000000001660810600000000000000000000242025000000000000000000000000001770235200000000000000000000242012500000000000000000000000001907148800000000000000000000242000000000000000000000000000001837069400000000000000000000241987500000000000000000000000001855881800000000000000000000241975000000000000000000000000001743035200000000000000000000241962500000000000000000000000001795509500000000000000000000241950000000000000000000000000001705028000000000000000000000241937500000000000000000000000001698101300000000000000000000241925000000000000000000000000001748727800000000000000000000241912500000000000000000000000001881434400000000000000000000241900000000000000000000000000001935189700000000000000000000241887500000000000000000000000001854651100000000000000000000241875000000000000000000000000001718695800000000000000000000241862500000000000000000000000001711717100000000000000000000241850000000000000000000000000001719323800000000000000000000241837500000000000000000000000001784850700000000000000000000241825000000000000000000000000001756729800000000000000000000241812500000000000000000000000001803285900000000000000000000241800000000000000000000,
    1729773500000000000000000000243387500000000000000000000000001672774000000000000000000000243375000000000000000000000000001668343300000000000000000000243362500000000000000000000000001824613400000000000000000000243350000000000000000000000000001876526900000000000000000000243337500000000000000000000000001831764100000000000000000000243325000000000000000000000000001961879400000000000000000000243312500000000000000000000000001922125100000000000000000000243300000000000000000000000000001771656400000000000000000000243287500000000000000000000000001954298400000000000000000000243275000000000000000000000000001975343500000000000000000000243262500000000000000000000000001817275500000000000000000000243250000000000000000000000000001706110000000000000000000000243237500000000000000000000000001585302900000000000000000000243225000000000000000000000000001568790400000000000000000000243212500000000000000000000000001651952800000000000000000000243200000000000000000000000000001888530100000000000000000000243187500000000000000000000000001920482800000000000000000000243175000000000000000000000000001775271400000000000000000000243162500000000000000000000000001920128500000000000000000000243150000000000000000000000000001804786600000000000000000000243137500000000000000000000000001726776300000000000000000000243125000000000000000000000000001876893300000000000000000000243112500000000000000000000000001669396100000000000000000000243100000000000000000000000000001747020500000000000000000000243087500000000000000000000000004623477200000000000000000000243075000000000000000000000000009673732800000000000000000000243062500000000000000000000000005591152200000000000000000000243050000000000000000000000000001774081900000000000000000000243037500000000000000000000000001696883100000000000000000000243025000000000000000000000000001782731100000000000000000000243012500000000000000000000000001881443100000000000000000000243000000000000000000000000000001780129100000000000000000000242987500000000000000000000000001697950300000000000000000000242975000000000000000000000000001711357500000000000000000000242962500000000000000000000000001685816900000000000000000000242950000000000000000000000000001871182700000000000000000000242937500000000000000000000000001946134700000000000000000000242925000000000000000000000000001819832300000000000000000000242912500000000000000000000000001770520200000000000000000000242900000000000000000000000000001704219500000000000000000000242887500000000000000000000000001712108500000000000000000000242875000000000000000000000000001864969800000000000000000000242862500000000000000000000000001915156300000000000000000000242850000000000000000000000000001872600200000000000000000000242837500000000000000000000000001873035300000000000000000000242825000000000000000000000000001850420400000000000000000000242812500000000000000000000000001854533700000000000000000000242800000000000000000000000000001874912400000000000000000000242787500000000000000000000000001784388900000000000000000000242775000000000000000000000000001761044800000000000000000000242762500000000000000000000000001797727000000000000000000000242750000000000000000000000000001838434400000000000000000000242737500000000000000000000000001812219000000000000000000000242725000000000000000000000000001845601900000000000000000000242712500000000000000000000000001815096500000000000000000000242700000000000000000000000000001773624200000000000000000000242687500000000000000000000000001634496900000000000000000000242675000000000000000000000000001710695400000000000000000000242662500000000000000000000000003605796700000000000000000000242650000000000000000000000000007931823600000000000000000000242637500000000000000000000000005082859200000000000000000000242625000000000000000000000000001903800500000000000000000000242612500000000000000000000000001854310400000000000000000000242600000000000000000000,
    1836439800000000000000000000244187500000000000000000000000001706319800000000000000000000244175000000000000000000000000001627591700000000000000000000244162500000000000000000000000001794833000000000000000000000244150000000000000000000000000001793825700000000000000000000244137500000000000000000000000003092228600000000000000000000244125000000000000000000000000003333286400000000000000000000244112500000000000000000000000002251386900000000000000000000244100000000000000000000000000001792275900000000000000000000244087500000000000000000000000001784005100000000000000000000244075000000000000000000000000001614738800000000000000000000244062500000000000000000000000001582534200000000000000000000244050000000000000000000000000001766061900000000000000000000244037500000000000000000000000001897571500000000000000000000244025000000000000000000000000001938044800000000000000000000244012500000000000000000000000001700362400000000000000000000244000000000000000000000000000001517199400000000000000000000243987500000000000000000000000001640115500000000000000000000243975000000000000000000000000001840341100000000000000000000243962500000000000000000000000001831535200000000000000000000243950000000000000000000000000001733441700000000000000000000243937500000000000000000000000002979948400000000000000000000243925000000000000000000000000003704506300000000000000000000243912500000000000000000000000002074681700000000000000000000243900000000000000000000000000001763655300000000000000000000243887500000000000000000000000001842364800000000000000000000243875000000000000000000000000001958400100000000000000000000243862500000000000000000000000002132985900000000000000000000243850000000000000000000000000002018245600000000000000000000243837500000000000000000000000001814583100000000000000000000243825000000000000000000000000001769150100000000000000000000243812500000000000000000000000001636046800000000000000000000243800000000000000000000000000001741349200000000000000000000243787500000000000000000000000001882204700000000000000000000243775000000000000000000000000001862239700000000000000000000243762500000000000000000000000001741476400000000000000000000243750000000000000000000000000001805728400000000000000000000243737500000000000000000000000001820417100000000000000000000243725000000000000000000000000001830985800000000000000000000243712500000000000000000000000001809917500000000000000000000243700000000000000000000000000001844575400000000000000000000243687500000000000000000000000001916129100000000000000000000243675000000000000000000000000001866474700000000000000000000243662500000000000000000000000001749417200000000000000000000243650000000000000000000000000001765675500000000000000000000243637500000000000000000000000001933303300000000000000000000243625000000000000000000000000001809570200000000000000000000243612500000000000000000000000001779246100000000000000000000243600000000000000000000000000001794033500000000000000000000243587500000000000000000000000001780729800000000000000000000243575000000000000000000000000001845823000000000000000000000243562500000000000000000000000001814779700000000000000000000243550000000000000000000000000002035127100000000000000000000243537500000000000000000000000001989445000000000000000000000243525000000000000000000000000001825873200000000000000000000243512500000000000000000000000001779145200000000000000000000243500000000000000000000000000001728200300000000000000000000243487500000000000000000000000001849768200000000000000000000243475000000000000000000000000002099091000000000000000000000243462500000000000000000000000005773848100000000000000000000243450000000000000000000000000010908162000000000000000000000243437500000000000000000000000005659507000000000000000000000243425000000000000000000000000001906825200000000000000000000243412500000000000000000000000001795717800000000000000000000243400000000000000000000,
    1934170400000000000000000000244987500000000000000000000000001903150400000000000000000000244975000000000000000000000000001794851600000000000000000000244962500000000000000000000000001743699100000000000000000000244950000000000000000000000000001820087100000000000000000000244937500000000000000000000000001864117200000000000000000000244925000000000000000000000000001859403000000000000000000000244912500000000000000000000000001757061100000000000000000000244900000000000000000000000000001748069900000000000000000000244887500000000000000000000000001780065400000000000000000000244875000000000000000000000000001906408300000000000000000000244862500000000000000000000000001907474400000000000000000000244850000000000000000000000000001754504200000000000000000000244837500000000000000000000000001800493500000000000000000000244825000000000000000000000000001965134100000000000000000000244812500000000000000000000000001963099600000000000000000000244800000000000000000000000000001798428300000000000000000000244787500000000000000000000000001795734200000000000000000000244775000000000000000000000000001828859700000000000000000000244762500000000000000000000000001838592900000000000000000000244750000000000000000000000000001839225700000000000000000000244737500000000000000000000000001877772200000000000000000000244725000000000000000000000000001794502000000000000000000000244712500000000000000000000000001769520200000000000000000000244700000000000000000000000000001755375100000000000000000000244687500000000000000000000000001675221700000000000000000000244675000000000000000000000000001732805100000000000000000000244662500000000000000000000000001780324800000000000000000000244650000000000000000000000000001898823400000000000000000000244637500000000000000000000000002622165700000000000000000000244625000000000000000000000000005109090700000000000000000000244612500000000000000000000000003858614600000000000000000000244600000000000000000000000000001940990500000000000000000000244587500000000000000000000000001916531200000000000000000000244575000000000000000000000000002028089800000000000000000000244562500000000000000000000000001903717100000000000000000000244550000000000000000000000000001811534100000000000000000000244537500000000000000000000000001810292700000000000000000000244525000000000000000000000000001965336200000000000000000000244512500000000000000000000000001902245300000000000000000000244500000000000000000000000000001813546500000000000000000000244487500000000000000000000000001767625700000000000000000000244475000000000000000000000000001793923000000000000000000000244462500000000000000000000000001863221700000000000000000000244450000000000000000000000000001982818500000000000000000000244437500000000000000000000000001887253700000000000000000000244425000000000000000000000000001808519800000000000000000000244412500000000000000000000000001841358400000000000000000000244400000000000000000000000000001741180900000000000000000000244387500000000000000000000000001705525800000000000000000000244375000000000000000000000000001732470200000000000000000000244362500000000000000000000000001781104500000000000000000000244350000000000000000000000000001695146500000000000000000000244337500000000000000000000000001702478600000000000000000000244325000000000000000000000000001627345800000000000000000000244312500000000000000000000000001767352100000000000000000000244300000000000000000000000000001866112000000000000000000000244287500000000000000000000000001901383300000000000000000000244275000000000000000000000000001830111200000000000000000000244262500000000000000000000000001836850800000000000000000000244250000000000000000000000000001804225400000000000000000000244237500000000000000000000000001858116100000000000000000000244225000000000000000000000000001830255300000000000000000000244212500000000000000000000000001861684900000000000000000000244200000000000000000000,
    1848067600000000000000000000245787500000000000000000000000001842497300000000000000000000245775000000000000000000000000002077975700000000000000000000245762500000000000000000000000002055862000000000000000000000245750000000000000000000000000001870671700000000000000000000245737500000000000000000000000001794005200000000000000000000245725000000000000000000000000001833630400000000000000000000245712500000000000000000000000001842025400000000000000000000245700000000000000000000000000001766024500000000000000000000245687500000000000000000000000001736812300000000000000000000245675000000000000000000000000001781032900000000000000000000245662500000000000000000000000001816851200000000000000000000245650000000000000000000000000001791301200000000000000000000245637500000000000000000000000001930777900000000000000000000245625000000000000000000000000002030043800000000000000000000245612500000000000000000000000001974089500000000000000000000245600000000000000000000000000001924548000000000000000000000245587500000000000000000000000001938614300000000000000000000245575000000000000000000000000001817628700000000000000000000245562500000000000000000000000003723557300000000000000000000245550000000000000000000000000004883123300000000000000000000245537500000000000000000000000002530244500000000000000000000245525000000000000000000000000001897078900000000000000000000245512500000000000000000000000001771863900000000000000000000245500000000000000000000000000001828655600000000000000000000245487500000000000000000000000001832857700000000000000000000245475000000000000000000000000001777559200000000000000000000245462500000000000000000000000001596951600000000000000000000245450000000000000000000000000001682377600000000000000000000245437500000000000000000000000001754993900000000000000000000245425000000000000000000000000001770477500000000000000000000245412500000000000000000000000001954611100000000000000000000245400000000000000000000000000001742289900000000000000000000245387500000000000000000000000001553083400000000000000000000245375000000000000000000000000001984821700000000000000000000245362500000000000000000000000001846906500000000000000000000245350000000000000000000000000001726768600000000000000000000245337500000000000000000000000001946938900000000000000000000245325000000000000000000000000001991300700000000000000000000245312500000000000000000000000004853245400000000000000000000245300000000000000000000000000006922873100000000000000000000245287500000000000000000000000003004521900000000000000000000245275000000000000000000000000001864028100000000000000000000245262500000000000000000000000001855476300000000000000000000245250000000000000000000000000001759618100000000000000000000245237500000000000000000000000001821998200000000000000000000245225000000000000000000000000001649126200000000000000000000245212500000000000000000000000001736109300000000000000000000245200000000000000000000000000001799683500000000000000000000245187500000000000000000000000001831987800000000000000000000245175000000000000000000000000001707339700000000000000000000245162500000000000000000000000001637190200000000000000000000245150000000000000000000000000001768266800000000000000000000245137500000000000000000000000001732003400000000000000000000245125000000000000000000000000001702558600000000000000000000245112500000000000000000000000001768854400000000000000000000245100000000000000000000000000002310611800000000000000000000245087500000000000000000000000002337121600000000000000000000245075000000000000000000000000001834214900000000000000000000245062500000000000000000000000001785442900000000000000000000245050000000000000000000000000004680340700000000000000000000245037500000000000000000000000011170646000000000000000000000245025000000000000000000000000007164913600000000000000000000245012500000000000000000000000001940673800000000000000000000245000000000000000000000,
    2001338200000000000000000000246587500000000000000000000000001915473500000000000000000000246575000000000000000000000000001868473800000000000000000000246562500000000000000000000000001826055900000000000000000000246550000000000000000000000000001844093300000000000000000000246537500000000000000000000000001665818500000000000000000000246525000000000000000000000000001769797600000000000000000000246512500000000000000000000000001974154800000000000000000000246500000000000000000000000000002016033700000000000000000000246487500000000000000000000000002023796200000000000000000000246475000000000000000000000000001938835000000000000000000000246462500000000000000000000000001885077400000000000000000000246450000000000000000000000000001947111400000000000000000000246437500000000000000000000000001958325700000000000000000000246425000000000000000000000000001849091100000000000000000000246412500000000000000000000000001743903600000000000000000000246400000000000000000000000000001845356300000000000000000000246387500000000000000000000000001857861100000000000000000000246375000000000000000000000000001899188800000000000000000000246362500000000000000000000000001822184700000000000000000000246350000000000000000000000000001785714200000000000000000000246337500000000000000000000000001774399000000000000000000000246325000000000000000000000000001679615300000000000000000000246312500000000000000000000000001842412800000000000000000000246300000000000000000000000000001850825800000000000000000000246287500000000000000000000000001743589800000000000000000000246275000000000000000000000000001769603100000000000000000000246262500000000000000000000000001932057700000000000000000000246250000000000000000000000000001793154700000000000000000000246237500000000000000000000000001827198300000000000000000000246225000000000000000000000000001799671800000000000000000000246212500000000000000000000000001827847900000000000000000000246200000000000000000000000000001794174600000000000000000000246187500000000000000000000000001819169000000000000000000000246175000000000000000000000000001948522900000000000000000000246162500000000000000000000000001948277500000000000000000000246150000000000000000000000000001801265600000000000000000000246137500000000000000000000000001716141700000000000000000000246125000000000000000000000000001901603000000000000000000000246112500000000000000000000000001890934200000000000000000000246100000000000000000000000000001768203200000000000000000000246087500000000000000000000000002004153600000000000000000000246075000000000000000000000000002039736300000000000000000000246062500000000000000000000000001980359000000000000000000000246050000000000000000000000000001925816100000000000000000000246037500000000000000000000000001833971000000000000000000000246025000000000000000000000000001846844700000000000000000000246012500000000000000000000000001862446100000000000000000000246000000000000000000000000000001828122400000000000000000000245987500000000000000000000000001833850200000000000000000000245975000000000000000000000000001952437000000000000000000000245962500000000000000000000000001848071500000000000000000000245950000000000000000000000000001813742500000000000000000000245937500000000000000000000000001824567800000000000000000000245925000000000000000000000000001937129000000000000000000000245912500000000000000000000000001892492100000000000000000000245900000000000000000000000000001876687200000000000000000000245887500000000000000000000000001832520900000000000000000000245875000000000000000000000000001684102500000000000000000000245862500000000000000000000000001841251700000000000000000000245850000000000000000000000000001836864600000000000000000000245837500000000000000000000000001687319400000000000000000000245825000000000000000000000000001713749500000000000000000000245812500000000000000000000000001871996200000000000000000000245800000000000000000000,
    1962926900000000000000000000247387500000000000000000000000002113586300000000000000000000247375000000000000000000000000001894217600000000000000000000247362500000000000000000000000001805871900000000000000000000247350000000000000000000000000001918638200000000000000000000247337500000000000000000000000001799021600000000000000000000247325000000000000000000000000001647167400000000000000000000247312500000000000000000000000001795717900000000000000000000247300000000000000000000000000001818927100000000000000000000247287500000000000000000000000001967811100000000000000000000247275000000000000000000000000001956940000000000000000000000247262500000000000000000000000001956923900000000000000000000247250000000000000000000000000001822072400000000000000000000247237500000000000000000000000001760541900000000000000000000247225000000000000000000000000001937792100000000000000000000247212500000000000000000000000001888977400000000000000000000247200000000000000000000000000001692311200000000000000000000247187500000000000000000000000001742296500000000000000000000247175000000000000000000000000001761786200000000000000000000247162500000000000000000000000001923969400000000000000000000247150000000000000000000000000001977282600000000000000000000247137500000000000000000000000001841891300000000000000000000247125000000000000000000000000001778292400000000000000000000247112500000000000000000000000001832012700000000000000000000247100000000000000000000000000001905368100000000000000000000247087500000000000000000000000001827872600000000000000000000247075000000000000000000000000001780151600000000000000000000247062500000000000000000000000001944958000000000000000000000247050000000000000000000000000001978960300000000000000000000247037500000000000000000000000001832715300000000000000000000247025000000000000000000000000001984001300000000000000000000247012500000000000000000000000001884566000000000000000000000247000000000000000000000000000001852150100000000000000000000246987500000000000000000000000001899440500000000000000000000246975000000000000000000000000001953856900000000000000000000246962500000000000000000000000002036615800000000000000000000246950000000000000000000000000002005597000000000000000000000246937500000000000000000000000001887533900000000000000000000246925000000000000000000000000001894581500000000000000000000246912500000000000000000000000001943178500000000000000000000246900000000000000000000000000001960724500000000000000000000246887500000000000000000000000002075697700000000000000000000246875000000000000000000000000002041878600000000000000000000246862500000000000000000000000001922579300000000000000000000246850000000000000000000000000001818111000000000000000000000246837500000000000000000000000001952281500000000000000000000246825000000000000000000000000002025017000000000000000000000246812500000000000000000000000001775155100000000000000000000246800000000000000000000000000001792464700000000000000000000246787500000000000000000000000001778817500000000000000000000246775000000000000000000000000001802977600000000000000000000246762500000000000000000000000001863448100000000000000000000246750000000000000000000000000001815682200000000000000000000246737500000000000000000000000001775583000000000000000000000246725000000000000000000000000001834397400000000000000000000246712500000000000000000000000001877637000000000000000000000246700000000000000000000000000001767274700000000000000000000246687500000000000000000000000001838228700000000000000000000246675000000000000000000000000001855623300000000000000000000246662500000000000000000000000001964016100000000000000000000246650000000000000000000000000001911470500000000000000000000246637500000000000000000000000001783853900000000000000000000246625000000000000000000000000001777044900000000000000000000246612500000000000000000000000001863411300000000000000000000246600000000000000000000,
    1915919500000000000000000000248187500000000000000000000000001915201900000000000000000000248175000000000000000000000000002002625200000000000000000000248162500000000000000000000000001958515800000000000000000000248150000000000000000000000000001968601700000000000000000000248137500000000000000000000000001957508800000000000000000000248125000000000000000000000000001971523100000000000000000000248112500000000000000000000000001925258700000000000000000000248100000000000000000000000000001855144200000000000000000000248087500000000000000000000000001851065300000000000000000000248075000000000000000000000000001928794200000000000000000000248062500000000000000000000000001948102300000000000000000000248050000000000000000000000000001996260900000000000000000000248037500000000000000000000000001852117900000000000000000000248025000000000000000000000000001799994200000000000000000000248012500000000000000000000000001967922800000000000000000000248000000000000000000000000000001919320800000000000000000000247987500000000000000000000000001793127300000000000000000000247975000000000000000000000000001800885800000000000000000000247962500000000000000000000000001824579900000000000000000000247950000000000000000000000000001854840100000000000000000000247937500000000000000000000000001808503500000000000000000000247925000000000000000000000000001778847800000000000000000000247912500000000000000000000000001684612500000000000000000000247900000000000000000000000000001657288600000000000000000000247887500000000000000000000000001722377300000000000000000000247875000000000000000000000000001834577600000000000000000000247862500000000000000000000000002031882500000000000000000000247850000000000000000000000000002153219900000000000000000000247837500000000000000000000000002055944200000000000000000000247825000000000000000000000000001952748400000000000000000000247812500000000000000000000000001925614900000000000000000000247800000000000000000000000000001834695600000000000000000000247787500000000000000000000000001692823400000000000000000000247775000000000000000000000000001864020800000000000000000000247762500000000000000000000000001824153100000000000000000000247750000000000000000000000000001779621100000000000000000000247737500000000000000000000000001811301700000000000000000000247725000000000000000000000000001901740300000000000000000000247712500000000000000000000000002024056200000000000000000000247700000000000000000000000000001816393500000000000000000000247687500000000000000000000000001834642300000000000000000000247675000000000000000000000000001863287000000000000000000000247662500000000000000000000000001858130100000000000000000000247650000000000000000000000000001825905100000000000000000000247637500000000000000000000000001799678500000000000000000000247625000000000000000000000000001859517500000000000000000000247612500000000000000000000000001889872700000000000000000000247600000000000000000000000000001925029900000000000000000000247587500000000000000000000000001893946400000000000000000000247575000000000000000000000000001913820900000000000000000000247562500000000000000000000000001781170000000000000000000000247550000000000000000000000000001781984300000000000000000000247537500000000000000000000000001748555800000000000000000000247525000000000000000000000000001863974800000000000000000000247512500000000000000000000000001895425600000000000000000000247500000000000000000000000000001875798500000000000000000000247487500000000000000000000000002008773500000000000000000000247475000000000000000000000000002192635900000000000000000000247462500000000000000000000000001971531700000000000000000000247450000000000000000000000000001831341900000000000000000000247437500000000000000000000000001800643500000000000000000000247425000000000000000000000000001982329400000000000000000000247412500000000000000000000000001915786800000000000000000000247400000000000000000000,
    2116755800000000000000000000248987500000000000000000000000002093360400000000000000000000248975000000000000000000000000002081844700000000000000000000248962500000000000000000000000002009264400000000000000000000248950000000000000000000000000001963008400000000000000000000248937500000000000000000000000001978956900000000000000000000248925000000000000000000000000001947476100000000000000000000248912500000000000000000000000002028205000000000000000000000248900000000000000000000000000001944200800000000000000000000248887500000000000000000000000001780098600000000000000000000248875000000000000000000000000001998109700000000000000000000248862500000000000000000000000001985628100000000000000000000248850000000000000000000000000001973153100000000000000000000248837500000000000000000000000001983587100000000000000000000248825000000000000000000000000002003058200000000000000000000248812500000000000000000000000001909652100000000000000000000248800000000000000000000000000002008810000000000000000000000248787500000000000000000000000002145102000000000000000000000248775000000000000000000000000001976267500000000000000000000248762500000000000000000000000001845259600000000000000000000248750000000000000000000000000001931894000000000000000000000248737500000000000000000000000001769025600000000000000000000248725000000000000000000000000001853798900000000000000000000248712500000000000000000000000001877631800000000000000000000248700000000000000000000000000001790402200000000000000000000248687500000000000000000000000001848218200000000000000000000248675000000000000000000000000002020234200000000000000000000248662500000000000000000000000001872952600000000000000000000248650000000000000000000000000001795072800000000000000000000248637500000000000000000000000001854402200000000000000000000248625000000000000000000000000001721551300000000000000000000248612500000000000000000000000001990360900000000000000000000248600000000000000000000000000001946953600000000000000000000248587500000000000000000000000001877273600000000000000000000248575000000000000000000000000001857603000000000000000000000248562500000000000000000000000001950260900000000000000000000248550000000000000000000000000001987792200000000000000000000248537500000000000000000000000002014025300000000000000000000248525000000000000000000000000002008368800000000000000000000248512500000000000000000000000001836252100000000000000000000248500000000000000000000000000001784776300000000000000000000248487500000000000000000000000001828537400000000000000000000248475000000000000000000000000001812628400000000000000000000248462500000000000000000000000001867208200000000000000000000248450000000000000000000000000001878330500000000000000000000248437500000000000000000000000001822598500000000000000000000248425000000000000000000000000001899281600000000000000000000248412500000000000000000000000001892710900000000000000000000248400000000000000000000000000001896575200000000000000000000248387500000000000000000000000001905050000000000000000000000248375000000000000000000000000001752106400000000000000000000248362500000000000000000000000001853802900000000000000000000248350000000000000000000000000001947781300000000000000000000248337500000000000000000000000001952737700000000000000000000248325000000000000000000000000001838484300000000000000000000248312500000000000000000000000001787789600000000000000000000248300000000000000000000000000001630641900000000000000000000248287500000000000000000000000001730072100000000000000000000248275000000000000000000000000002063983500000000000000000000248262500000000000000000000000001922027300000000000000000000248250000000000000000000000000001827491600000000000000000000248237500000000000000000000000001896976300000000000000000000248225000000000000000000000000001922149800000000000000000000248212500000000000000000000000001868990200000000000000000000248200000000000000000000,
    1952656900000000000000000000249787500000000000000000000000002151253500000000000000000000249775000000000000000000000000002020169400000000000000000000249762500000000000000000000000002092574200000000000000000000249750000000000000000000000000002013591300000000000000000000249737500000000000000000000000002069235900000000000000000000249725000000000000000000000000002150895300000000000000000000249712500000000000000000000000001995307000000000000000000000249700000000000000000000000000001889616000000000000000000000249687500000000000000000000000002005295000000000000000000000249675000000000000000000000000002005499300000000000000000000249662500000000000000000000000002098017200000000000000000000249650000000000000000000000000002150911100000000000000000000249637500000000000000000000000002040608100000000000000000000249625000000000000000000000000002104017400000000000000000000249612500000000000000000000000002014546000000000000000000000249600000000000000000000000000001989336200000000000000000000249587500000000000000000000000002080458000000000000000000000249575000000000000000000000000002004829300000000000000000000249562500000000000000000000000002072844000000000000000000000249550000000000000000000000000002000177800000000000000000000249537500000000000000000000000002149103200000000000000000000249525000000000000000000000000002092812100000000000000000000249512500000000000000000000000002035628100000000000000000000249500000000000000000000000000002048706700000000000000000000249487500000000000000000000000001736393700000000000000000000249475000000000000000000000000001878394200000000000000000000249462500000000000000000000000002027165000000000000000000000249450000000000000000000000000002190224100000000000000000000249437500000000000000000000000002106742700000000000000000000249425000000000000000000000000002064753100000000000000000000249412500000000000000000000000002172255700000000000000000000249400000000000000000000000000002069594700000000000000000000249387500000000000000000000000002039507600000000000000000000249375000000000000000000000000002050006000000000000000000000249362500000000000000000000000002086332900000000000000000000249350000000000000000000000000002194748200000000000000000000249337500000000000000000000000002272030600000000000000000000249325000000000000000000000000002197334800000000000000000000249312500000000000000000000000002167543400000000000000000000249300000000000000000000000000002074610800000000000000000000249287500000000000000000000000002106774900000000000000000000249275000000000000000000000000002135041400000000000000000000249262500000000000000000000000002090843200000000000000000000249250000000000000000000000000002088746600000000000000000000249237500000000000000000000000002194707600000000000000000000249225000000000000000000000000002234424800000000000000000000249212500000000000000000000000002278471400000000000000000000249200000000000000000000000000002382602200000000000000000000249187500000000000000000000000002277238300000000000000000000249175000000000000000000000000002287470800000000000000000000249162500000000000000000000000002182475000000000000000000000249150000000000000000000000000002232815900000000000000000000249137500000000000000000000000002126177800000000000000000000249125000000000000000000000000002149330600000000000000000000249112500000000000000000000000002249492800000000000000000000249100000000000000000000000000002109331000000000000000000000249087500000000000000000000000001995413800000000000000000000249075000000000000000000000000002134469400000000000000000000249062500000000000000000000000002092874900000000000000000000249050000000000000000000000000001997287900000000000000000000249037500000000000000000000000002037677900000000000000000000249025000000000000000000000000002062208400000000000000000000249012500000000000000000000000002062712800000000000000000000249000000000000000000000,
    1935551200000000000000000000250587500000000000000000000000002024633800000000000000000000250575000000000000000000000000002142541900000000000000000000250562500000000000000000000000002262202200000000000000000000250550000000000000000000000000002177335500000000000000000000250537500000000000000000000000002157979200000000000000000000250525000000000000000000000000002134831900000000000000000000250512500000000000000000000000002221531500000000000000000000250500000000000000000000000000002099665700000000000000000000250487500000000000000000000000002149882000000000000000000000250475000000000000000000000000002338341600000000000000000000250462500000000000000000000000002269971500000000000000000000250450000000000000000000000000002239218500000000000000000000250437500000000000000000000000002109970700000000000000000000250425000000000000000000000000002140195900000000000000000000250412500000000000000000000000001965093900000000000000000000250400000000000000000000000000002112605100000000000000000000250387500000000000000000000000002130318100000000000000000000250375000000000000000000000000002047155600000000000000000000250362500000000000000000000000002114584600000000000000000000250350000000000000000000000000002216164600000000000000000000250337500000000000000000000000003227351600000000000000000000250325000000000000000000000000007185272400000000000000000000250312500000000000000000000000005083759500000000000000000000250300000000000000000000000000002150443800000000000000000000250287500000000000000000000000002097056400000000000000000000250275000000000000000000000000001973799300000000000000000000250262500000000000000000000000001928680100000000000000000000250250000000000000000000000000002001849800000000000000000000250237500000000000000000000000001793362500000000000000000000250225000000000000000000000000001899293000000000000000000000250212500000000000000000000000002028498900000000000000000000250200000000000000000000000000002050351300000000000000000000250187500000000000000000000000002045328700000000000000000000250175000000000000000000000000001979639100000000000000000000250162500000000000000000000000002117057600000000000000000000250150000000000000000000000000002010548700000000000000000000250137500000000000000000000000002042624300000000000000000000250125000000000000000000000000002094749100000000000000000000250112500000000000000000000000002008375800000000000000000000250100000000000000000000000000002110440500000000000000000000250087500000000000000000000000002022905600000000000000000000250075000000000000000000000000001995917400000000000000000000250062500000000000000000000000001979283400000000000000000000250050000000000000000000000000001919091100000000000000000000250037500000000000000000000000001930276800000000000000000000250025000000000000000000000000001851760800000000000000000000250012500000000000000000000000001917669200000000000000000000250000000000000000000000000000002055798400000000000000000000249987500000000000000000000000002034818700000000000000000000249975000000000000000000000000002064003400000000000000000000249962500000000000000000000000002168435800000000000000000000249950000000000000000000000000001988472000000000000000000000249937500000000000000000000000001776496000000000000000000000249925000000000000000000000000001878655300000000000000000000249912500000000000000000000000001930503700000000000000000000249900000000000000000000000000001891918100000000000000000000249887500000000000000000000000002011961800000000000000000000249875000000000000000000000000002042643800000000000000000000249862500000000000000000000000001880012300000000000000000000249850000000000000000000000000001969456800000000000000000000249837500000000000000000000000001952513900000000000000000000249825000000000000000000000000001962220900000000000000000000249812500000000000000000000000001848469300000000000000000000249800000000000000000000,
    2824051700000000000000000000251387500000000000000000000000002676046900000000000000000000251375000000000000000000000000002567003100000000000000000000251362500000000000000000000000002657229600000000000000000000251350000000000000000000000000002735830800000000000000000000251337500000000000000000000000002466743300000000000000000000251325000000000000000000000000002252389200000000000000000000251312500000000000000000000000002570172100000000000000000000251300000000000000000000000000002755078300000000000000000000251287500000000000000000000000002548324200000000000000000000251275000000000000000000000000002465421000000000000000000000251262500000000000000000000000002499530100000000000000000000251250000000000000000000000000002421859100000000000000000000251237500000000000000000000000002251578100000000000000000000251225000000000000000000000000002229587000000000000000000000251212500000000000000000000000002360285500000000000000000000251200000000000000000000000000002445136700000000000000000000251187500000000000000000000000002310578000000000000000000000251175000000000000000000000000002580883900000000000000000000251162500000000000000000000000002450333500000000000000000000251150000000000000000000000000002285736100000000000000000000251137500000000000000000000000002213651300000000000000000000251125000000000000000000000000002240786200000000000000000000251112500000000000000000000000002354984000000000000000000000251100000000000000000000000000002355912000000000000000000000251087500000000000000000000000002381182600000000000000000000251075000000000000000000000000002227852500000000000000000000251062500000000000000000000000002341950800000000000000000000251050000000000000000000000000002470846700000000000000000000251037500000000000000000000000002323003200000000000000000000251025000000000000000000000000002209023100000000000000000000251012500000000000000000000000002240369300000000000000000000251000000000000000000000000000002356315700000000000000000000250987500000000000000000000000002354246000000000000000000000250975000000000000000000000000002312565900000000000000000000250962500000000000000000000000002353544000000000000000000000250950000000000000000000000000002095177600000000000000000000250937500000000000000000000000002387377300000000000000000000250925000000000000000000000000002452706500000000000000000000250912500000000000000000000000002230763800000000000000000000250900000000000000000000000000002299097900000000000000000000250887500000000000000000000000002332253700000000000000000000250875000000000000000000000000002184440700000000000000000000250862500000000000000000000000002135172700000000000000000000250850000000000000000000000000002100114400000000000000000000250837500000000000000000000000002141779600000000000000000000250825000000000000000000000000002006851800000000000000000000250812500000000000000000000000002136582100000000000000000000250800000000000000000000000000002119174200000000000000000000250787500000000000000000000000002018295800000000000000000000250775000000000000000000000000002093617800000000000000000000250762500000000000000000000000002287827300000000000000000000250750000000000000000000000000002349479000000000000000000000250737500000000000000000000000002223396800000000000000000000250725000000000000000000000000002295441800000000000000000000250712500000000000000000000000002380073300000000000000000000250700000000000000000000000000002116684900000000000000000000250687500000000000000000000000002001224200000000000000000000250675000000000000000000000000002178837700000000000000000000250662500000000000000000000000002021700900000000000000000000250650000000000000000000000000002142409700000000000000000000250637500000000000000000000000002151917700000000000000000000250625000000000000000000000000002174189100000000000000000000250612500000000000000000000000002186425800000000000000000000250600000000000000000000,
    8916191900000000000000000000252187500000000000000000000000008605228700000000000000000000252175000000000000000000000000008924701600000000000000000000252162500000000000000000000000009115682900000000000000000000252150000000000000000000000000009075362400000000000000000000252137500000000000000000000000009192920600000000000000000000252125000000000000000000000000009210760700000000000000000000252112500000000000000000000000008860921300000000000000000000252100000000000000000000000000008320990400000000000000000000252087500000000000000000000000008194959700000000000000000000252075000000000000000000000000008041230200000000000000000000252062500000000000000000000000007452795100000000000000000000252050000000000000000000000000007088193200000000000000000000252037500000000000000000000000006904791200000000000000000000252025000000000000000000000000006717814400000000000000000000252012500000000000000000000000006384543800000000000000000000252000000000000000000000000000005980486500000000000000000000251987500000000000000000000000005423850800000000000000000000251975000000000000000000000000005684783000000000000000000000251962500000000000000000000000005856696700000000000000000000251950000000000000000000000000005606280200000000000000000000251937500000000000000000000000005430085200000000000000000000251925000000000000000000000000005550454700000000000000000000251912500000000000000000000000005155413900000000000000000000251900000000000000000000000000004846279900000000000000000000251887500000000000000000000000004819550000000000000000000000251875000000000000000000000000004724359300000000000000000000251862500000000000000000000000004913878600000000000000000000251850000000000000000000000000004670708900000000000000000000251837500000000000000000000000004435382000000000000000000000251825000000000000000000000000004255568600000000000000000000251812500000000000000000000000004427937600000000000000000000251800000000000000000000000000003982874400000000000000000000251787500000000000000000000000003475400200000000000000000000251775000000000000000000000000003612152200000000000000000000251762500000000000000000000000003826891200000000000000000000251750000000000000000000000000003666848300000000000000000000251737500000000000000000000000003531296100000000000000000000251725000000000000000000000000003570142500000000000000000000251712500000000000000000000000003478458000000000000000000000251700000000000000000000000000003415020100000000000000000000251687500000000000000000000000003384764400000000000000000000251675000000000000000000000000003335864000000000000000000000251662500000000000000000000000003377496300000000000000000000251650000000000000000000000000003294322700000000000000000000251637500000000000000000000000003256145700000000000000000000251625000000000000000000000000003317077600000000000000000000251612500000000000000000000000003342239200000000000000000000251600000000000000000000000000003253328000000000000000000000251587500000000000000000000000003070620400000000000000000000251575000000000000000000000000003062131800000000000000000000251562500000000000000000000000002896549500000000000000000000251550000000000000000000000000002959882600000000000000000000251537500000000000000000000000002997809800000000000000000000251525000000000000000000000000002810191100000000000000000000251512500000000000000000000000002771356300000000000000000000251500000000000000000000000000002834124500000000000000000000251487500000000000000000000000002980932900000000000000000000251475000000000000000000000000002770064200000000000000000000251462500000000000000000000000002732316800000000000000000000251450000000000000000000000000002904666800000000000000000000251437500000000000000000000000002770522900000000000000000000251425000000000000000000000000002517074600000000000000000000251412500000000000000000000000002627963400000000000000000000251400000000000000000000,
    2509733800000000000000000000252987500000000000000000000000002777042600000000000000000000252975000000000000000000000000002570434700000000000000000000252962500000000000000000000000002633392100000000000000000000252950000000000000000000000000002747231100000000000000000000252937500000000000000000000000002625229300000000000000000000252925000000000000000000000000002823522100000000000000000000252912500000000000000000000000002973856400000000000000000000252900000000000000000000000000002882228200000000000000000000252887500000000000000000000000002942893800000000000000000000252875000000000000000000000000002873727400000000000000000000252862500000000000000000000000002860835300000000000000000000252850000000000000000000000000003148080600000000000000000000252837500000000000000000000000003215473400000000000000000000252825000000000000000000000000002926532400000000000000000000252812500000000000000000000000002940804400000000000000000000252800000000000000000000000000003042559400000000000000000000252787500000000000000000000000002936213400000000000000000000252775000000000000000000000000002866755300000000000000000000252762500000000000000000000000002811108000000000000000000000252750000000000000000000000000002956147300000000000000000000252737500000000000000000000000003366334600000000000000000000252725000000000000000000000000003489344000000000000000000000252712500000000000000000000000003271234200000000000000000000252700000000000000000000000000003478682300000000000000000000252687500000000000000000000000003406520500000000000000000000252675000000000000000000000000003629462300000000000000000000252662500000000000000000000000003598944000000000000000000000252650000000000000000000000000003726059100000000000000000000252637500000000000000000000000003788060000000000000000000000252625000000000000000000000000003913168400000000000000000000252612500000000000000000000000004112888600000000000000000000252600000000000000000000000000004055329500000000000000000000252587500000000000000000000000004238225800000000000000000000252575000000000000000000000000004171388500000000000000000000252562500000000000000000000000004367760200000000000000000000252550000000000000000000000000004625156000000000000000000000252537500000000000000000000000004845691800000000000000000000252525000000000000000000000000004753965700000000000000000000252512500000000000000000000000004469530900000000000000000000252500000000000000000000000000004469721600000000000000000000252487500000000000000000000000004882267700000000000000000000252475000000000000000000000000005315508500000000000000000000252462500000000000000000000000005541691200000000000000000000252450000000000000000000000000005442763900000000000000000000252437500000000000000000000000005636950900000000000000000000252425000000000000000000000000005820770700000000000000000000252412500000000000000000000000005776246100000000000000000000252400000000000000000000000000005754868600000000000000000000252387500000000000000000000000006026960300000000000000000000252375000000000000000000000000006068388600000000000000000000252362500000000000000000000000006922763600000000000000000000252350000000000000000000000000007108116700000000000000000000252337500000000000000000000000006900033900000000000000000000252325000000000000000000000000007168687200000000000000000000252312500000000000000000000000006709020000000000000000000000252300000000000000000000000000006489115500000000000000000000252287500000000000000000000000007703343200000000000000000000252275000000000000000000000000008768477400000000000000000000252262500000000000000000000000009175045800000000000000000000252250000000000000000000000000008249981200000000000000000000252237500000000000000000000000008998904000000000000000000000252225000000000000000000000000008957912100000000000000000000252212500000000000000000000000008970305800000000000000000000252200000000000000000000,
    2310049300000000000000000000253787500000000000000000000000002160811500000000000000000000253775000000000000000000000000001984508800000000000000000000253762500000000000000000000000002131951300000000000000000000253750000000000000000000000000002250820000000000000000000000253737500000000000000000000000002054333900000000000000000000253725000000000000000000000000002007099300000000000000000000253712500000000000000000000000002146869200000000000000000000253700000000000000000000000000002258054400000000000000000000253687500000000000000000000000002281722900000000000000000000253675000000000000000000000000002161844600000000000000000000253662500000000000000000000000002219952300000000000000000000253650000000000000000000000000002271874400000000000000000000253637500000000000000000000000002148056500000000000000000000253625000000000000000000000000002127942500000000000000000000253612500000000000000000000000002092823100000000000000000000253600000000000000000000000000002230222600000000000000000000253587500000000000000000000000002236381400000000000000000000253575000000000000000000000000002301990800000000000000000000253562500000000000000000000000002357338300000000000000000000253550000000000000000000000000002360801600000000000000000000253537500000000000000000000000002325022800000000000000000000253525000000000000000000000000002354950300000000000000000000253512500000000000000000000000002274344800000000000000000000253500000000000000000000000000002199681100000000000000000000253487500000000000000000000000002275400100000000000000000000253475000000000000000000000000002308311300000000000000000000253462500000000000000000000000002449790800000000000000000000253450000000000000000000000000002405444600000000000000000000253437500000000000000000000000002271271400000000000000000000253425000000000000000000000000002257219800000000000000000000253412500000000000000000000000002157302800000000000000000000253400000000000000000000000000002276488200000000000000000000253387500000000000000000000000002120246400000000000000000000253375000000000000000000000000002237151000000000000000000000253362500000000000000000000000002202414300000000000000000000253350000000000000000000000000002241549400000000000000000000253337500000000000000000000000002107246600000000000000000000253325000000000000000000000000002266096500000000000000000000253312500000000000000000000000002279059300000000000000000000253300000000000000000000000000002286595000000000000000000000253287500000000000000000000000002164167100000000000000000000253275000000000000000000000000002321534300000000000000000000253262500000000000000000000000002464271900000000000000000000253250000000000000000000000000002495507800000000000000000000253237500000000000000000000000002410757800000000000000000000253225000000000000000000000000002497048200000000000000000000253212500000000000000000000000002244991300000000000000000000253200000000000000000000000000002356259300000000000000000000253187500000000000000000000000002404606800000000000000000000253175000000000000000000000000002573895100000000000000000000253162500000000000000000000000002412781900000000000000000000253150000000000000000000000000002399395200000000000000000000253137500000000000000000000000002516883200000000000000000000253125000000000000000000000000002437945100000000000000000000253112500000000000000000000000002517500300000000000000000000253100000000000000000000000000002548673800000000000000000000253087500000000000000000000000002493253800000000000000000000253075000000000000000000000000002283634900000000000000000000253062500000000000000000000000002559415000000000000000000000253050000000000000000000000000002749662100000000000000000000253037500000000000000000000000002602325000000000000000000000253025000000000000000000000000002550404100000000000000000000253012500000000000000000000000002441517500000000000000000000253000000000000000000000,
    1972599600000000000000000000254587500000000000000000000000002079648500000000000000000000254575000000000000000000000000001897601200000000000000000000254562500000000000000000000000001896410700000000000000000000254550000000000000000000000000002043161600000000000000000000254537500000000000000000000000001948747700000000000000000000254525000000000000000000000000002019604800000000000000000000254512500000000000000000000000002110341900000000000000000000254500000000000000000000000000002008385100000000000000000000254487500000000000000000000000001948033500000000000000000000254475000000000000000000000000001948022800000000000000000000254462500000000000000000000000002015853600000000000000000000254450000000000000000000000000002060212900000000000000000000254437500000000000000000000000002082456800000000000000000000254425000000000000000000000000002110172300000000000000000000254412500000000000000000000000001934016900000000000000000000254400000000000000000000000000001934423000000000000000000000254387500000000000000000000000002047872100000000000000000000254375000000000000000000000000001980412200000000000000000000254362500000000000000000000000001962700500000000000000000000254350000000000000000000000000001911714200000000000000000000254337500000000000000000000000001970969000000000000000000000254325000000000000000000000000001981721600000000000000000000254312500000000000000000000000002039503500000000000000000000254300000000000000000000000000002139498300000000000000000000254287500000000000000000000000002056281100000000000000000000254275000000000000000000000000002015299600000000000000000000254262500000000000000000000000002056684800000000000000000000254250000000000000000000000000002050078400000000000000000000254237500000000000000000000000002004778900000000000000000000254225000000000000000000000000002027728000000000000000000000254212500000000000000000000000002012961000000000000000000000254200000000000000000000000000001987195100000000000000000000254187500000000000000000000000002111314700000000000000000000254175000000000000000000000000002138429100000000000000000000254162500000000000000000000000002277029400000000000000000000254150000000000000000000000000002107420800000000000000000000254137500000000000000000000000002060138000000000000000000000254125000000000000000000000000002014853200000000000000000000254112500000000000000000000000001904458700000000000000000000254100000000000000000000000000002046244000000000000000000000254087500000000000000000000000001996435100000000000000000000254075000000000000000000000000002078810900000000000000000000254062500000000000000000000000002024053000000000000000000000254050000000000000000000000000002036314800000000000000000000254037500000000000000000000000002061160100000000000000000000254025000000000000000000000000001900436100000000000000000000254012500000000000000000000000001775709300000000000000000000254000000000000000000000000000001840914800000000000000000000253987500000000000000000000000001940099400000000000000000000253975000000000000000000000000001971758200000000000000000000253962500000000000000000000000002177985800000000000000000000253950000000000000000000000000002189627100000000000000000000253937500000000000000000000000002216898800000000000000000000253925000000000000000000000000002182535500000000000000000000253912500000000000000000000000002416636900000000000000000000253900000000000000000000000000002474232600000000000000000000253887500000000000000000000000002213710700000000000000000000253875000000000000000000000000002132319200000000000000000000253862500000000000000000000000002160175300000000000000000000253850000000000000000000000000002147683700000000000000000000253837500000000000000000000000002124298000000000000000000000253825000000000000000000000000002181299500000000000000000000253812500000000000000000000000002213681200000000000000000000253800000000000000000000,
    2220407500000000000000000000255387500000000000000000000000002204462300000000000000000000255375000000000000000000000000001901191300000000000000000000255362500000000000000000000000001979018500000000000000000000255350000000000000000000000000002097797400000000000000000000255337500000000000000000000000002096710300000000000000000000255325000000000000000000000000002079524000000000000000000000255312500000000000000000000000001838627700000000000000000000255300000000000000000000000000001998155700000000000000000000255287500000000000000000000000002212936300000000000000000000255275000000000000000000000000002106536300000000000000000000255262500000000000000000000000002016084200000000000000000000255250000000000000000000000000001841666700000000000000000000255237500000000000000000000000001968660700000000000000000000255225000000000000000000000000002180284400000000000000000000255212500000000000000000000000002146890900000000000000000000255200000000000000000000000000001982479300000000000000000000255187500000000000000000000000002018411600000000000000000000255175000000000000000000000000002028662300000000000000000000255162500000000000000000000000002111817200000000000000000000255150000000000000000000000000001987187800000000000000000000255137500000000000000000000000001868313200000000000000000000255125000000000000000000000000001905761100000000000000000000255112500000000000000000000000002020687700000000000000000000255100000000000000000000000000001949475300000000000000000000255087500000000000000000000000001963398900000000000000000000255075000000000000000000000000001942358100000000000000000000255062500000000000000000000000001978027400000000000000000000255050000000000000000000000000001893273800000000000000000000255037500000000000000000000000001971249500000000000000000000255025000000000000000000000000002047390000000000000000000000255012500000000000000000000000002059963100000000000000000000255000000000000000000000000000002003171500000000000000000000254987500000000000000000000000001907846100000000000000000000254975000000000000000000000000001952428900000000000000000000254962500000000000000000000000002135181700000000000000000000254950000000000000000000000000002123844200000000000000000000254937500000000000000000000000001991501600000000000000000000254925000000000000000000000000001800615300000000000000000000254912500000000000000000000000001877279800000000000000000000254900000000000000000000000000001881402200000000000000000000254887500000000000000000000000001917785500000000000000000000254875000000000000000000000000001976760000000000000000000000254862500000000000000000000000001897997800000000000000000000254850000000000000000000000000001929781800000000000000000000254837500000000000000000000000001970334900000000000000000000254825000000000000000000000000001925394600000000000000000000254812500000000000000000000000001757949900000000000000000000254800000000000000000000000000001847707200000000000000000000254787500000000000000000000000001869526900000000000000000000254775000000000000000000000000002012595000000000000000000000254762500000000000000000000000001916751100000000000000000000254750000000000000000000000000002032511800000000000000000000254737500000000000000000000000001990509600000000000000000000254725000000000000000000000000002011692700000000000000000000254712500000000000000000000000002033097400000000000000000000254700000000000000000000000000002020078100000000000000000000254687500000000000000000000000002002143700000000000000000000254675000000000000000000000000001905587300000000000000000000254662500000000000000000000000001770183400000000000000000000254650000000000000000000000000001964968400000000000000000000254637500000000000000000000000002006563500000000000000000000254625000000000000000000000000002018576300000000000000000000254612500000000000000000000000001917983300000000000000000000254600000000000000000000,
    2008428800000000000000000000256187500000000000000000000000001983124300000000000000000000256175000000000000000000000000001917614100000000000000000000256162500000000000000000000000002150541600000000000000000000256150000000000000000000000000002094818800000000000000000000256137500000000000000000000000002160574500000000000000000000256125000000000000000000000000002068836700000000000000000000256112500000000000000000000000001928768600000000000000000000256100000000000000000000000000001790365400000000000000000000256087500000000000000000000000001827452300000000000000000000256075000000000000000000000000002037435600000000000000000000256062500000000000000000000000001814372800000000000000000000256050000000000000000000000000001782761400000000000000000000256037500000000000000000000000001783364300000000000000000000256025000000000000000000000000001852995100000000000000000000256012500000000000000000000000001989979800000000000000000000256000000000000000000000000000002103819000000000000000000000255987500000000000000000000000001968234900000000000000000000255975000000000000000000000000001855467400000000000000000000255962500000000000000000000000002162312300000000000000000000255950000000000000000000000000002133871900000000000000000000255937500000000000000000000000002037062600000000000000000000255925000000000000000000000000001874413400000000000000000000255912500000000000000000000000001871198800000000000000000000255900000000000000000000000000001955908600000000000000000000255887500000000000000000000000001953163000000000000000000000255875000000000000000000000000002096629800000000000000000000255862500000000000000000000000002232263000000000000000000000255850000000000000000000000000002138608400000000000000000000255837500000000000000000000000001973958000000000000000000000255825000000000000000000000000002014722800000000000000000000255812500000000000000000000000002144310700000000000000000000255800000000000000000000000000002001831800000000000000000000255787500000000000000000000000002003501200000000000000000000255775000000000000000000000000002150528000000000000000000000255762500000000000000000000000001889714100000000000000000000255750000000000000000000000000002005045900000000000000000000255737500000000000000000000000002002356200000000000000000000255725000000000000000000000000002030108300000000000000000000255712500000000000000000000000001973885800000000000000000000255700000000000000000000000000001797067500000000000000000000255687500000000000000000000000001927110100000000000000000000255675000000000000000000000000002006040100000000000000000000255662500000000000000000000000001940221100000000000000000000255650000000000000000000000000001809237000000000000000000000255637500000000000000000000000001856277800000000000000000000255625000000000000000000000000001845106000000000000000000000255612500000000000000000000000001964711100000000000000000000255600000000000000000000000000001961758600000000000000000000255587500000000000000000000000001900711800000000000000000000255575000000000000000000000000002069417800000000000000000000255562500000000000000000000000002079141200000000000000000000255550000000000000000000000000001965768300000000000000000000255537500000000000000000000000001969542900000000000000000000255525000000000000000000000000001991950100000000000000000000255512500000000000000000000000002075718900000000000000000000255500000000000000000000000000001981848200000000000000000000255487500000000000000000000000001955631300000000000000000000255475000000000000000000000000001938551200000000000000000000255462500000000000000000000000001954015100000000000000000000255450000000000000000000000000001962582900000000000000000000255437500000000000000000000000002071867600000000000000000000255425000000000000000000000000002029026000000000000000000000255412500000000000000000000000001967255400000000000000000000255400000000000000000000,
    1958553300000000000000000000256987500000000000000000000000001822516300000000000000000000256975000000000000000000000000001918014500000000000000000000256962500000000000000000000000001957161500000000000000000000256950000000000000000000000000001791332800000000000000000000256937500000000000000000000000001805961700000000000000000000256925000000000000000000000000001777327500000000000000000000256912500000000000000000000000001694825500000000000000000000256900000000000000000000000000001725984900000000000000000000256887500000000000000000000000001922793800000000000000000000256875000000000000000000000000001914997000000000000000000000256862500000000000000000000000001915132400000000000000000000256850000000000000000000000000001871196800000000000000000000256837500000000000000000000000001958057900000000000000000000256825000000000000000000000000001893490900000000000000000000256812500000000000000000000000001835002300000000000000000000256800000000000000000000000000001841409400000000000000000000256787500000000000000000000000001891021900000000000000000000256775000000000000000000000000001963646900000000000000000000256762500000000000000000000000002009806000000000000000000000256750000000000000000000000000001889132300000000000000000000256737500000000000000000000000001811198700000000000000000000256725000000000000000000000000002037248100000000000000000000256712500000000000000000000000002012798200000000000000000000256700000000000000000000000000001818212200000000000000000000256687500000000000000000000000002004777800000000000000000000256675000000000000000000000000002083646700000000000000000000256662500000000000000000000000001906709200000000000000000000256650000000000000000000000000001994795200000000000000000000256637500000000000000000000000002032366900000000000000000000256625000000000000000000000000002082870800000000000000000000256612500000000000000000000000002082356500000000000000000000256600000000000000000000000000001955287600000000000000000000256587500000000000000000000000001907819200000000000000000000256575000000000000000000000000001915502500000000000000000000256562500000000000000000000000002005792200000000000000000000256550000000000000000000000000001994147100000000000000000000256537500000000000000000000000001910550800000000000000000000256525000000000000000000000000001812486800000000000000000000256512500000000000000000000000001900989800000000000000000000256500000000000000000000000000001972938000000000000000000000256487500000000000000000000000002083920700000000000000000000256475000000000000000000000000002038185400000000000000000000256462500000000000000000000000002073175500000000000000000000256450000000000000000000000000002021843400000000000000000000256437500000000000000000000000001981545600000000000000000000256425000000000000000000000000002012117000000000000000000000256412500000000000000000000000002061050300000000000000000000256400000000000000000000000000001928965500000000000000000000256387500000000000000000000000002181150100000000000000000000256375000000000000000000000000002132253100000000000000000000256362500000000000000000000000001999053400000000000000000000256350000000000000000000000000001830345700000000000000000000256337500000000000000000000000001898409800000000000000000000256325000000000000000000000000002003042400000000000000000000256312500000000000000000000000001938056600000000000000000000256300000000000000000000000000001899133400000000000000000000256287500000000000000000000000001721400500000000000000000000256275000000000000000000000000001843372000000000000000000000256262500000000000000000000000001987028400000000000000000000256250000000000000000000000000001927055500000000000000000000256237500000000000000000000000001811078700000000000000000000256225000000000000000000000000001878850600000000000000000000256212500000000000000000000000001812499400000000000000000000256200000000000000000000,
    2119153400000000000000000000257787500000000000000000000000001928002500000000000000000000257775000000000000000000000000001907490500000000000000000000257762500000000000000000000000001738729000000000000000000000257750000000000000000000000000001824566500000000000000000000257737500000000000000000000000002059623600000000000000000000257725000000000000000000000000002064107200000000000000000000257712500000000000000000000000001883265100000000000000000000257700000000000000000000000000002021176000000000000000000000257687500000000000000000000000001898152800000000000000000000257675000000000000000000000000001843376200000000000000000000257662500000000000000000000000001846332400000000000000000000257650000000000000000000000000001845537000000000000000000000257637500000000000000000000000001855100800000000000000000000257625000000000000000000000000001890385600000000000000000000257612500000000000000000000000002050627000000000000000000000257600000000000000000000000000001934183500000000000000000000257587500000000000000000000000001896257100000000000000000000257575000000000000000000000000001889370700000000000000000000257562500000000000000000000000001903275900000000000000000000257550000000000000000000000000001848822300000000000000000000257537500000000000000000000000001887328400000000000000000000257525000000000000000000000000001957121100000000000000000000257512500000000000000000000000001969195100000000000000000000257500000000000000000000000000001995110000000000000000000000257487500000000000000000000000001991579600000000000000000000257475000000000000000000000000001881204300000000000000000000257462500000000000000000000000001746238500000000000000000000257450000000000000000000000000001905763400000000000000000000257437500000000000000000000000002015116500000000000000000000257425000000000000000000000000001890699500000000000000000000257412500000000000000000000000001905541200000000000000000000257400000000000000000000000000001880181500000000000000000000257387500000000000000000000000001948039000000000000000000000257375000000000000000000000000002005924900000000000000000000257362500000000000000000000000001962856000000000000000000000257350000000000000000000000000001978810500000000000000000000257337500000000000000000000000001944830600000000000000000000257325000000000000000000000000001970289100000000000000000000257312500000000000000000000000001926813100000000000000000000257300000000000000000000000000001757424500000000000000000000257287500000000000000000000000002042939600000000000000000000257275000000000000000000000000002119830500000000000000000000257262500000000000000000000000001876721000000000000000000000257250000000000000000000000000001903072500000000000000000000257237500000000000000000000000001938141200000000000000000000257225000000000000000000000000002053569400000000000000000000257212500000000000000000000000002044724300000000000000000000257200000000000000000000000000002046481200000000000000000000257187500000000000000000000000001962611900000000000000000000257175000000000000000000000000001818564300000000000000000000257162500000000000000000000000001813171700000000000000000000257150000000000000000000000000001745839800000000000000000000257137500000000000000000000000001882980800000000000000000000257125000000000000000000000000001981669400000000000000000000257112500000000000000000000000001859169700000000000000000000257100000000000000000000000000001858171200000000000000000000257087500000000000000000000000001880097900000000000000000000257075000000000000000000000000001966052700000000000000000000257062500000000000000000000000001979658300000000000000000000257050000000000000000000000000001916910900000000000000000000257037500000000000000000000000002028274500000000000000000000257025000000000000000000000000002003938700000000000000000000257012500000000000000000000000001997912600000000000000000000257000000000000000000000,
    1693804400000000000000000000258587500000000000000000000000001851879500000000000000000000258575000000000000000000000000001796921500000000000000000000258562500000000000000000000000001770749600000000000000000000258550000000000000000000000000001898277100000000000000000000258537500000000000000000000000001888819000000000000000000000258525000000000000000000000000001889118300000000000000000000258512500000000000000000000000001892691700000000000000000000258500000000000000000000000000002086408200000000000000000000258487500000000000000000000000002035838100000000000000000000258475000000000000000000000000001911684300000000000000000000258462500000000000000000000000001923180900000000000000000000258450000000000000000000000000001930405800000000000000000000258437500000000000000000000000002000109100000000000000000000258425000000000000000000000000002095433600000000000000000000258412500000000000000000000000001934261100000000000000000000258400000000000000000000000000001890303400000000000000000000258387500000000000000000000000001871414000000000000000000000258375000000000000000000000000001863949800000000000000000000258362500000000000000000000000001940576500000000000000000000258350000000000000000000000000001879696000000000000000000000258337500000000000000000000000001847913500000000000000000000258325000000000000000000000000002032114200000000000000000000258312500000000000000000000000002014724600000000000000000000258300000000000000000000000000001952484700000000000000000000258287500000000000000000000000001972569500000000000000000000258275000000000000000000000000001901831000000000000000000000258262500000000000000000000000001967947700000000000000000000258250000000000000000000000000001911438600000000000000000000258237500000000000000000000000002146033900000000000000000000258225000000000000000000000000001956843800000000000000000000258212500000000000000000000000001801186500000000000000000000258200000000000000000000000000001899277600000000000000000000258187500000000000000000000000002018231300000000000000000000258175000000000000000000000000002050587000000000000000000000258162500000000000000000000000001907978600000000000000000000258150000000000000000000000000001996751700000000000000000000258137500000000000000000000000002003578400000000000000000000258125000000000000000000000000002019433500000000000000000000258112500000000000000000000000001879652600000000000000000000258100000000000000000000000000001935058000000000000000000000258087500000000000000000000000002181183200000000000000000000258075000000000000000000000000001981474500000000000000000000258062500000000000000000000000001885744100000000000000000000258050000000000000000000000000002061158000000000000000000000258037500000000000000000000000001906058700000000000000000000258025000000000000000000000000001803715600000000000000000000258012500000000000000000000000001861967800000000000000000000258000000000000000000000000000001850592600000000000000000000257987500000000000000000000000001825818500000000000000000000257975000000000000000000000000001837822500000000000000000000257962500000000000000000000000001881346000000000000000000000257950000000000000000000000000002025449200000000000000000000257937500000000000000000000000001997497000000000000000000000257925000000000000000000000000002011849000000000000000000000257912500000000000000000000000001931921900000000000000000000257900000000000000000000000000001991023100000000000000000000257887500000000000000000000000001973850800000000000000000000257875000000000000000000000000001968596800000000000000000000257862500000000000000000000000001976273900000000000000000000257850000000000000000000000000001995774500000000000000000000257837500000000000000000000000001939905000000000000000000000257825000000000000000000000000002040258600000000000000000000257812500000000000000000000000002156207000000000000000000000257800000000000000000000,
    1846450100000000000000000000259387500000000000000000000000001797270000000000000000000000259375000000000000000000000000001890931500000000000000000000259362500000000000000000000000001988238900000000000000000000259350000000000000000000000000002076799600000000000000000000259337500000000000000000000000001979544600000000000000000000259325000000000000000000000000001855784500000000000000000000259312500000000000000000000000001855100100000000000000000000259300000000000000000000000000002051488100000000000000000000259287500000000000000000000000001934256600000000000000000000259275000000000000000000000000001897362800000000000000000000259262500000000000000000000000001885459300000000000000000000259250000000000000000000000000001947864900000000000000000000259237500000000000000000000000002042338900000000000000000000259225000000000000000000000000001945737400000000000000000000259212500000000000000000000000001835372100000000000000000000259200000000000000000000000000001882582200000000000000000000259187500000000000000000000000001829500200000000000000000000259175000000000000000000000000001627870300000000000000000000259162500000000000000000000000001917407000000000000000000000259150000000000000000000000000001916542100000000000000000000259137500000000000000000000000002062731000000000000000000000259125000000000000000000000000002050885200000000000000000000259112500000000000000000000000002012929200000000000000000000259100000000000000000000000000001917445400000000000000000000259087500000000000000000000000001844439500000000000000000000259075000000000000000000000000002022131800000000000000000000259062500000000000000000000000001962291200000000000000000000259050000000000000000000000000001883247500000000000000000000259037500000000000000000000000001941114200000000000000000000259025000000000000000000000000001956227300000000000000000000259012500000000000000000000000001910473200000000000000000000259000000000000000000000000000001985961000000000000000000000258987500000000000000000000000001979263800000000000000000000258975000000000000000000000000001896796300000000000000000000258962500000000000000000000000001857273600000000000000000000258950000000000000000000000000001968756100000000000000000000258937500000000000000000000000002137164000000000000000000000258925000000000000000000000000001924795000000000000000000000258912500000000000000000000000001887179500000000000000000000258900000000000000000000000000001945728700000000000000000000258887500000000000000000000000001965326700000000000000000000258875000000000000000000000000001873140600000000000000000000258862500000000000000000000000001849131000000000000000000000258850000000000000000000000000001745590000000000000000000000258837500000000000000000000000001716306000000000000000000000258825000000000000000000000000001924307100000000000000000000258812500000000000000000000000001990623100000000000000000000258800000000000000000000000000001935235100000000000000000000258787500000000000000000000000001922759900000000000000000000258775000000000000000000000000001940603000000000000000000000258762500000000000000000000000001960719600000000000000000000258750000000000000000000000000001939418000000000000000000000258737500000000000000000000000001794629700000000000000000000258725000000000000000000000000001844301300000000000000000000258712500000000000000000000000001868653200000000000000000000258700000000000000000000000000001995103200000000000000000000258687500000000000000000000000001904897300000000000000000000258675000000000000000000000000001974358800000000000000000000258662500000000000000000000000001987089500000000000000000000258650000000000000000000000000001996240400000000000000000000258637500000000000000000000000002112192700000000000000000000258625000000000000000000000000001851574600000000000000000000258612500000000000000000000000001704290800000000000000000000258600000000000000000000,
    1808924500000000000000000000260187500000000000000000000000001844674900000000000000000000260175000000000000000000000000001828342600000000000000000000260162500000000000000000000000002062993000000000000000000000260150000000000000000000000000002025174400000000000000000000260137500000000000000000000000002008847300000000000000000000260125000000000000000000000000001836146000000000000000000000260112500000000000000000000000001798909800000000000000000000260100000000000000000000000000001970299800000000000000000000260087500000000000000000000000001917943800000000000000000000260075000000000000000000000000001893934100000000000000000000260062500000000000000000000000002226802800000000000000000000260050000000000000000000000000002258000400000000000000000000260037500000000000000000000000002004527300000000000000000000260025000000000000000000000000001792034500000000000000000000260012500000000000000000000000001696342400000000000000000000260000000000000000000000000000001758762800000000000000000000259987500000000000000000000000001758485100000000000000000000259975000000000000000000000000001858543100000000000000000000259962500000000000000000000000002043326700000000000000000000259950000000000000000000000000001907164100000000000000000000259937500000000000000000000000001748241700000000000000000000259925000000000000000000000000001861922000000000000000000000259912500000000000000000000000002121148300000000000000000000259900000000000000000000000000002090710200000000000000000000259887500000000000000000000000001985222400000000000000000000259875000000000000000000000000001848653600000000000000000000259862500000000000000000000000001855019600000000000000000000259850000000000000000000000000002032000900000000000000000000259837500000000000000000000000002105806400000000000000000000259825000000000000000000000000002018450000000000000000000000259812500000000000000000000000001930646700000000000000000000259800000000000000000000000000001958688200000000000000000000259787500000000000000000000000001995303000000000000000000000259775000000000000000000000000001931192100000000000000000000259762500000000000000000000000001891293700000000000000000000259750000000000000000000000000001811394700000000000000000000259737500000000000000000000000001696691300000000000000000000259725000000000000000000000000001782423600000000000000000000259712500000000000000000000000001951120200000000000000000000259700000000000000000000000000001958183900000000000000000000259687500000000000000000000000001954288900000000000000000000259675000000000000000000000000001961309400000000000000000000259662500000000000000000000000001958239500000000000000000000259650000000000000000000000000001923462400000000000000000000259637500000000000000000000000001904193900000000000000000000259625000000000000000000000000001851243500000000000000000000259612500000000000000000000000002062320200000000000000000000259600000000000000000000000000002034390100000000000000000000259587500000000000000000000000002045596900000000000000000000259575000000000000000000000000001954719100000000000000000000259562500000000000000000000000001875628200000000000000000000259550000000000000000000000000001887877900000000000000000000259537500000000000000000000000001831583900000000000000000000259525000000000000000000000000001791032400000000000000000000259512500000000000000000000000001855406700000000000000000000259500000000000000000000000000001906801600000000000000000000259487500000000000000000000000001818054000000000000000000000259475000000000000000000000000002068398800000000000000000000259462500000000000000000000000002093978100000000000000000000259450000000000000000000000000001961467400000000000000000000259437500000000000000000000000001936056000000000000000000000259425000000000000000000000000002162512100000000000000000000259412500000000000000000000000002012965600000000000000000000259400000000000000000000,
    1939882300000000000000000000260987500000000000000000000000001795795600000000000000000000260975000000000000000000000000001935383400000000000000000000260962500000000000000000000000002047836800000000000000000000260950000000000000000000000000001955544200000000000000000000260937500000000000000000000000001887959400000000000000000000260925000000000000000000000000001870448600000000000000000000260912500000000000000000000000001945006100000000000000000000260900000000000000000000000000001903252600000000000000000000260887500000000000000000000000001921064100000000000000000000260875000000000000000000000000001945587700000000000000000000260862500000000000000000000000001947463700000000000000000000260850000000000000000000000000001820332900000000000000000000260837500000000000000000000000001928439300000000000000000000260825000000000000000000000000001959954700000000000000000000260812500000000000000000000000002011901800000000000000000000260800000000000000000000000000002053785200000000000000000000260787500000000000000000000000002038964000000000000000000000260775000000000000000000000000001945183600000000000000000000260762500000000000000000000000001912446800000000000000000000260750000000000000000000000000001949503500000000000000000000260737500000000000000000000000001855696900000000000000000000260725000000000000000000000000001901874100000000000000000000260712500000000000000000000000001984980100000000000000000000260700000000000000000000000000001947944100000000000000000000260687500000000000000000000000001931573400000000000000000000260675000000000000000000000000001889231700000000000000000000260662500000000000000000000000001965939800000000000000000000260650000000000000000000000000001917865200000000000000000000260637500000000000000000000000001932500500000000000000000000260625000000000000000000000000001872111100000000000000000000260612500000000000000000000000001750150500000000000000000000260600000000000000000000000000001947161000000000000000000000260587500000000000000000000000001893495100000000000000000000260575000000000000000000000000001957157700000000000000000000260562500000000000000000000000001945644900000000000000000000260550000000000000000000000000001919952800000000000000000000260537500000000000000000000000001986286200000000000000000000260525000000000000000000000000002035808900000000000000000000260512500000000000000000000000001983130500000000000000000000260500000000000000000000000000001835632700000000000000000000260487500000000000000000000000001836142500000000000000000000260475000000000000000000000000001994764700000000000000000000260462500000000000000000000000002042398100000000000000000000260450000000000000000000000000001976386200000000000000000000260437500000000000000000000000001790954500000000000000000000260425000000000000000000000000001893981900000000000000000000260412500000000000000000000000001861971300000000000000000000260400000000000000000000000000001917717500000000000000000000260387500000000000000000000000001863658600000000000000000000260375000000000000000000000000001790410200000000000000000000260362500000000000000000000000001832116800000000000000000000260350000000000000000000000000001922931100000000000000000000260337500000000000000000000000001953821600000000000000000000260325000000000000000000000000001909730900000000000000000000260312500000000000000000000000001986461200000000000000000000260300000000000000000000000000001893919600000000000000000000260287500000000000000000000000001838213600000000000000000000260275000000000000000000000000001726789100000000000000000000260262500000000000000000000000001788327100000000000000000000260250000000000000000000000000001804618200000000000000000000260237500000000000000000000000001818875400000000000000000000260225000000000000000000000000001747490000000000000000000000260212500000000000000000000000001741981900000000000000000000260200000000000000000000,
    1871762600000000000000000000261787500000000000000000000000002052148400000000000000000000261775000000000000000000000000002069424400000000000000000000261762500000000000000000000000001907248700000000000000000000261750000000000000000000000000001936177100000000000000000000261737500000000000000000000000001951589200000000000000000000261725000000000000000000000000002074580700000000000000000000261712500000000000000000000000002066767400000000000000000000261700000000000000000000000000001998271000000000000000000000261687500000000000000000000000001998369300000000000000000000261675000000000000000000000000001958746100000000000000000000261662500000000000000000000000001937553000000000000000000000261650000000000000000000000000002089697600000000000000000000261637500000000000000000000000001924623500000000000000000000261625000000000000000000000000001939240400000000000000000000261612500000000000000000000000001976968500000000000000000000261600000000000000000000000000001979191600000000000000000000261587500000000000000000000000001978777700000000000000000000261575000000000000000000000000001956263700000000000000000000261562500000000000000000000000002063500700000000000000000000261550000000000000000000000000001994468200000000000000000000261537500000000000000000000000002042089100000000000000000000261525000000000000000000000000002085567600000000000000000000261512500000000000000000000000002001569500000000000000000000261500000000000000000000000000002016714200000000000000000000261487500000000000000000000000001925459800000000000000000000261475000000000000000000000000002088023500000000000000000000261462500000000000000000000000002048523000000000000000000000261450000000000000000000000000001841601500000000000000000000261437500000000000000000000000001935240200000000000000000000261425000000000000000000000000002035030800000000000000000000261412500000000000000000000000002063781200000000000000000000261400000000000000000000000000002085859400000000000000000000261387500000000000000000000000001982861400000000000000000000261375000000000000000000000000001943326500000000000000000000261362500000000000000000000000001895404000000000000000000000261350000000000000000000000000001882011100000000000000000000261337500000000000000000000000001685501600000000000000000000261325000000000000000000000000001729012800000000000000000000261312500000000000000000000000001910554500000000000000000000261300000000000000000000000000001946138500000000000000000000261287500000000000000000000000002059949700000000000000000000261275000000000000000000000000001951424100000000000000000000261262500000000000000000000000001939869000000000000000000000261250000000000000000000000000002027324600000000000000000000261237500000000000000000000000002008405400000000000000000000261225000000000000000000000000002027003100000000000000000000261212500000000000000000000000001997829400000000000000000000261200000000000000000000000000002064916900000000000000000000261187500000000000000000000000002172674100000000000000000000261175000000000000000000000000001901081700000000000000000000261162500000000000000000000000001822679100000000000000000000261150000000000000000000000000001902230000000000000000000000261137500000000000000000000000002013854200000000000000000000261125000000000000000000000000001968597800000000000000000000261112500000000000000000000000001974140600000000000000000000261100000000000000000000000000002052192400000000000000000000261087500000000000000000000000002109212100000000000000000000261075000000000000000000000000001981184200000000000000000000261062500000000000000000000000001880523800000000000000000000261050000000000000000000000000002150940900000000000000000000261037500000000000000000000000002199566000000000000000000000261025000000000000000000000000001933691500000000000000000000261012500000000000000000000000001962923600000000000000000000261000000000000000000000,
    2115057000000000000000000000262587500000000000000000000000001963709600000000000000000000262575000000000000000000000000001870390800000000000000000000262562500000000000000000000000002204253200000000000000000000262550000000000000000000000000002093770700000000000000000000262537500000000000000000000000002039076500000000000000000000262525000000000000000000000000001986357300000000000000000000262512500000000000000000000000002151990400000000000000000000262500000000000000000000000000002195513900000000000000000000262487500000000000000000000000002100344300000000000000000000262475000000000000000000000000002044644900000000000000000000262462500000000000000000000000001989026400000000000000000000262450000000000000000000000000001942462400000000000000000000262437500000000000000000000000001741949500000000000000000000262425000000000000000000000000001853355700000000000000000000262412500000000000000000000000002057925200000000000000000000262400000000000000000000000000002059510800000000000000000000262387500000000000000000000000001975663900000000000000000000262375000000000000000000000000001884703200000000000000000000262362500000000000000000000000001840788400000000000000000000262350000000000000000000000000001997142900000000000000000000262337500000000000000000000000002125875700000000000000000000262325000000000000000000000000002036191400000000000000000000262312500000000000000000000000001993002700000000000000000000262300000000000000000000000000001955868300000000000000000000262287500000000000000000000000002088800200000000000000000000262275000000000000000000000000002029734100000000000000000000262262500000000000000000000000001837058600000000000000000000262250000000000000000000000000002041392900000000000000000000262237500000000000000000000000002135797000000000000000000000262225000000000000000000000000002094107700000000000000000000262212500000000000000000000000001935740800000000000000000000262200000000000000000000000000001940252200000000000000000000262187500000000000000000000000001969758300000000000000000000262175000000000000000000000000001995736200000000000000000000262162500000000000000000000000001899428100000000000000000000262150000000000000000000000000001978434100000000000000000000262137500000000000000000000000002005277200000000000000000000262125000000000000000000000000001959559200000000000000000000262112500000000000000000000000001786501600000000000000000000262100000000000000000000000000001890042800000000000000000000262087500000000000000000000000001915059300000000000000000000262075000000000000000000000000002021567600000000000000000000262062500000000000000000000000002016621700000000000000000000262050000000000000000000000000001828898500000000000000000000262037500000000000000000000000001734778300000000000000000000262025000000000000000000000000001817152500000000000000000000262012500000000000000000000000001889653400000000000000000000262000000000000000000000000000001894259100000000000000000000261987500000000000000000000000001950685800000000000000000000261975000000000000000000000000001933958900000000000000000000261962500000000000000000000000001895179800000000000000000000261950000000000000000000000000001796978600000000000000000000261937500000000000000000000000001804907300000000000000000000261925000000000000000000000000001827849200000000000000000000261912500000000000000000000000001871612700000000000000000000261900000000000000000000000000001982041000000000000000000000261887500000000000000000000000001939350800000000000000000000261875000000000000000000000000002008858700000000000000000000261862500000000000000000000000002059681200000000000000000000261850000000000000000000000000002048764900000000000000000000261837500000000000000000000000002073435700000000000000000000261825000000000000000000000000002027896600000000000000000000261812500000000000000000000000001987834100000000000000000000261800000000000000000000,
    2025212300000000000000000000263387500000000000000000000000002010190700000000000000000000263375000000000000000000000000001993067100000000000000000000263362500000000000000000000000001904874100000000000000000000263350000000000000000000000000001983147300000000000000000000263337500000000000000000000000001912965000000000000000000000263325000000000000000000000000001974641200000000000000000000263312500000000000000000000000001930679000000000000000000000263300000000000000000000000000001796485600000000000000000000263287500000000000000000000000001866214200000000000000000000263275000000000000000000000000002070806300000000000000000000263262500000000000000000000000002101042600000000000000000000263250000000000000000000000000002072314800000000000000000000263237500000000000000000000000001914620900000000000000000000263225000000000000000000000000001944388300000000000000000000263212500000000000000000000000002056690500000000000000000000263200000000000000000000000000002077205500000000000000000000263187500000000000000000000000002071319200000000000000000000263175000000000000000000000000002111739600000000000000000000263162500000000000000000000000002010101700000000000000000000263150000000000000000000000000001889619700000000000000000000263137500000000000000000000000001838683500000000000000000000263125000000000000000000000000001900716800000000000000000000263112500000000000000000000000002033508200000000000000000000263100000000000000000000000000002111736000000000000000000000263087500000000000000000000000002040460000000000000000000000263075000000000000000000000000001974025700000000000000000000263062500000000000000000000000002044030100000000000000000000263050000000000000000000000000002001225000000000000000000000263037500000000000000000000000002009097000000000000000000000263025000000000000000000000000002010109600000000000000000000263012500000000000000000000000001863880100000000000000000000263000000000000000000000000000001894044000000000000000000000262987500000000000000000000000001919308400000000000000000000262975000000000000000000000000001865006700000000000000000000262962500000000000000000000000002062262900000000000000000000262950000000000000000000000000001891469500000000000000000000262937500000000000000000000000001759517100000000000000000000262925000000000000000000000000001992239100000000000000000000262912500000000000000000000000001884654200000000000000000000262900000000000000000000000000001860826700000000000000000000262887500000000000000000000000002010314600000000000000000000262875000000000000000000000000002070609000000000000000000000262862500000000000000000000000001952375700000000000000000000262850000000000000000000000000001858575800000000000000000000262837500000000000000000000000001883422900000000000000000000262825000000000000000000000000002066707100000000000000000000262812500000000000000000000000002169980900000000000000000000262800000000000000000000000000002058600400000000000000000000262787500000000000000000000000001938174300000000000000000000262775000000000000000000000000002012216300000000000000000000262762500000000000000000000000002056351500000000000000000000262750000000000000000000000000002107917000000000000000000000262737500000000000000000000000001974069600000000000000000000262725000000000000000000000000001813790700000000000000000000262712500000000000000000000000001811596100000000000000000000262700000000000000000000000000001865000400000000000000000000262687500000000000000000000000002131808900000000000000000000262675000000000000000000000000002117103000000000000000000000262662500000000000000000000000001941026700000000000000000000262650000000000000000000000000001874662500000000000000000000262637500000000000000000000000001906901600000000000000000000262625000000000000000000000000001920255400000000000000000000262612500000000000000000000000002023133300000000000000000000262600000000000000000000,
    1815681200000000000000000000264187500000000000000000000000001930707100000000000000000000264175000000000000000000000000002135186300000000000000000000264162500000000000000000000000002244585000000000000000000000264150000000000000000000000000002086898200000000000000000000264137500000000000000000000000002036697100000000000000000000264125000000000000000000000000002102709000000000000000000000264112500000000000000000000000002034276200000000000000000000264100000000000000000000000000002038318000000000000000000000264087500000000000000000000000001921384800000000000000000000264075000000000000000000000000001827679000000000000000000000264062500000000000000000000000001891104900000000000000000000264050000000000000000000000000001948424500000000000000000000264037500000000000000000000000002020394700000000000000000000264025000000000000000000000000001913832300000000000000000000264012500000000000000000000000001858584800000000000000000000264000000000000000000000000000001949583700000000000000000000263987500000000000000000000000002058630600000000000000000000263975000000000000000000000000002167175800000000000000000000263962500000000000000000000000001988145900000000000000000000263950000000000000000000000000001735123500000000000000000000263937500000000000000000000000001870398900000000000000000000263925000000000000000000000000001905468500000000000000000000263912500000000000000000000000001974553600000000000000000000263900000000000000000000000000001972006900000000000000000000263887500000000000000000000000001842302000000000000000000000263875000000000000000000000000001881702600000000000000000000263862500000000000000000000000001769277400000000000000000000263850000000000000000000000000001889713500000000000000000000263837500000000000000000000000001982054300000000000000000000263825000000000000000000000000001934956200000000000000000000263812500000000000000000000000001815535300000000000000000000263800000000000000000000000000001917407200000000000000000000263787500000000000000000000000001991530600000000000000000000263775000000000000000000000000002018535000000000000000000000263762500000000000000000000000001807789500000000000000000000263750000000000000000000000000001773158000000000000000000000263737500000000000000000000000001850596000000000000000000000263725000000000000000000000000002005927100000000000000000000263712500000000000000000000000001963216900000000000000000000263700000000000000000000000000001893225100000000000000000000263687500000000000000000000000001817491700000000000000000000263675000000000000000000000000001904277300000000000000000000263662500000000000000000000000001996159400000000000000000000263650000000000000000000000000001942764700000000000000000000263637500000000000000000000000001866796500000000000000000000263625000000000000000000000000001840607300000000000000000000263612500000000000000000000000001882420100000000000000000000263600000000000000000000000000001848730500000000000000000000263587500000000000000000000000001904351900000000000000000000263575000000000000000000000000002018386800000000000000000000263562500000000000000000000000002125193800000000000000000000263550000000000000000000000000002265924500000000000000000000263537500000000000000000000000002153963000000000000000000000263525000000000000000000000000002073751200000000000000000000263512500000000000000000000000001984520500000000000000000000263500000000000000000000000000001895308900000000000000000000263487500000000000000000000000001838822700000000000000000000263475000000000000000000000000001953697800000000000000000000263462500000000000000000000000001958118100000000000000000000263450000000000000000000000000001965058300000000000000000000263437500000000000000000000000001873820800000000000000000000263425000000000000000000000000001807966500000000000000000000263412500000000000000000000000002013268500000000000000000000263400000000000000000000,
    1938362000000000000000000000264987500000000000000000000000001992780000000000000000000000264975000000000000000000000000002043724000000000000000000000264962500000000000000000000000002117564700000000000000000000264950000000000000000000000000001989688900000000000000000000264937500000000000000000000000001993912800000000000000000000264925000000000000000000000000001998081400000000000000000000264912500000000000000000000000002041575100000000000000000000264900000000000000000000000000001948986500000000000000000000264887500000000000000000000000001883091100000000000000000000264875000000000000000000000000002049527100000000000000000000264862500000000000000000000000002039696000000000000000000000264850000000000000000000000000001947037700000000000000000000264837500000000000000000000000001900292600000000000000000000264825000000000000000000000000002083453000000000000000000000264812500000000000000000000000002027425900000000000000000000264800000000000000000000000000001947344300000000000000000000264787500000000000000000000000001868074100000000000000000000264775000000000000000000000000001827456000000000000000000000264762500000000000000000000000001884260200000000000000000000264750000000000000000000000000002177656300000000000000000000264737500000000000000000000000001993666000000000000000000000264725000000000000000000000000002034420600000000000000000000264712500000000000000000000000002069046300000000000000000000264700000000000000000000000000002005763400000000000000000000264687500000000000000000000000001945484500000000000000000000264675000000000000000000000000001934435800000000000000000000264662500000000000000000000000001872753700000000000000000000264650000000000000000000000000001877620100000000000000000000264637500000000000000000000000001936768400000000000000000000264625000000000000000000000000001834970300000000000000000000264612500000000000000000000000001949218500000000000000000000264600000000000000000000000000002086605900000000000000000000264587500000000000000000000000001982069000000000000000000000264575000000000000000000000000001840826900000000000000000000264562500000000000000000000000001793699300000000000000000000264550000000000000000000000000002054768900000000000000000000264537500000000000000000000000002034517300000000000000000000264525000000000000000000000000001999243600000000000000000000264512500000000000000000000000001998590900000000000000000000264500000000000000000000000000002125809700000000000000000000264487500000000000000000000000002041684400000000000000000000264475000000000000000000000000001839201000000000000000000000264462500000000000000000000000001897150800000000000000000000264450000000000000000000000000001989586700000000000000000000264437500000000000000000000000002034792500000000000000000000264425000000000000000000000000002172236800000000000000000000264412500000000000000000000000002226116400000000000000000000264400000000000000000000000000002121685800000000000000000000264387500000000000000000000000001936585900000000000000000000264375000000000000000000000000001919483300000000000000000000264362500000000000000000000000001912129600000000000000000000264350000000000000000000000000001947101900000000000000000000264337500000000000000000000000001912775000000000000000000000264325000000000000000000000000001952174000000000000000000000264312500000000000000000000000002006138400000000000000000000264300000000000000000000000000001956200600000000000000000000264287500000000000000000000000001882988500000000000000000000264275000000000000000000000000001925409500000000000000000000264262500000000000000000000000001898627800000000000000000000264250000000000000000000000000001983349700000000000000000000264237500000000000000000000000001996030900000000000000000000264225000000000000000000000000001946964000000000000000000000264212500000000000000000000000001876768000000000000000000000264200000000000000000000,
    2150715600000000000000000000265787500000000000000000000000002102587400000000000000000000265775000000000000000000000000001902634000000000000000000000265762500000000000000000000000001933655700000000000000000000265750000000000000000000000000001801545300000000000000000000265737500000000000000000000000001849120200000000000000000000265725000000000000000000000000002103938500000000000000000000265712500000000000000000000000001992041700000000000000000000265700000000000000000000000000001779203100000000000000000000265687500000000000000000000000001876634000000000000000000000265675000000000000000000000000002060828300000000000000000000265662500000000000000000000000002086262300000000000000000000265650000000000000000000000000001966092900000000000000000000265637500000000000000000000000001914093300000000000000000000265625000000000000000000000000001848975000000000000000000000265612500000000000000000000000001826532700000000000000000000265600000000000000000000000000001872799400000000000000000000265587500000000000000000000000001902911500000000000000000000265575000000000000000000000000002006496600000000000000000000265562500000000000000000000000002101568600000000000000000000265550000000000000000000000000001957652800000000000000000000265537500000000000000000000000002034827400000000000000000000265525000000000000000000000000001985001300000000000000000000265512500000000000000000000000002007066800000000000000000000265500000000000000000000000000001969725200000000000000000000265487500000000000000000000000001973553400000000000000000000265475000000000000000000000000002002394300000000000000000000265462500000000000000000000000002089077900000000000000000000265450000000000000000000000000002156272000000000000000000000265437500000000000000000000000002171789400000000000000000000265425000000000000000000000000002058172900000000000000000000265412500000000000000000000000001850992000000000000000000000265400000000000000000000000000002011668400000000000000000000265387500000000000000000000000001919471500000000000000000000265375000000000000000000000000002007223500000000000000000000265362500000000000000000000000001875880300000000000000000000265350000000000000000000000000001949681900000000000000000000265337500000000000000000000000001936538200000000000000000000265325000000000000000000000000002016988000000000000000000000265312500000000000000000000000002052953300000000000000000000265300000000000000000000000000002042717700000000000000000000265287500000000000000000000000001903894900000000000000000000265275000000000000000000000000002042202800000000000000000000265262500000000000000000000000002078300300000000000000000000265250000000000000000000000000002080175500000000000000000000265237500000000000000000000000001978630300000000000000000000265225000000000000000000000000002050009500000000000000000000265212500000000000000000000000001953131200000000000000000000265200000000000000000000000000002018339800000000000000000000265187500000000000000000000000002002010400000000000000000000265175000000000000000000000000002020945000000000000000000000265162500000000000000000000000002039408300000000000000000000265150000000000000000000000000001993242200000000000000000000265137500000000000000000000000002061414200000000000000000000265125000000000000000000000000001861125500000000000000000000265112500000000000000000000000001903339600000000000000000000265100000000000000000000000000001868059400000000000000000000265087500000000000000000000000001944557400000000000000000000265075000000000000000000000000002034997300000000000000000000265062500000000000000000000000001940839700000000000000000000265050000000000000000000000000002115280000000000000000000000265037500000000000000000000000002046184300000000000000000000265025000000000000000000000000001996403900000000000000000000265012500000000000000000000000001985249300000000000000000000265000000000000000000000,
    1958259800000000000000000000266587500000000000000000000000001981303500000000000000000000266575000000000000000000000000001887952700000000000000000000266562500000000000000000000000001947272800000000000000000000266550000000000000000000000000001889655800000000000000000000266537500000000000000000000000001803750400000000000000000000266525000000000000000000000000001861482400000000000000000000266512500000000000000000000000001983321500000000000000000000266500000000000000000000000000002046406600000000000000000000266487500000000000000000000000001975957700000000000000000000266475000000000000000000000000001941847000000000000000000000266462500000000000000000000000001944568900000000000000000000266450000000000000000000000000002117201100000000000000000000266437500000000000000000000000002268184900000000000000000000266425000000000000000000000000001986448000000000000000000000266412500000000000000000000000001923543400000000000000000000266400000000000000000000000000002045776800000000000000000000266387500000000000000000000000002043863400000000000000000000266375000000000000000000000000002074917500000000000000000000266362500000000000000000000000001961861700000000000000000000266350000000000000000000000000002004499500000000000000000000266337500000000000000000000000001924220400000000000000000000266325000000000000000000000000001839859900000000000000000000266312500000000000000000000000001963581900000000000000000000266300000000000000000000000000002137913600000000000000000000266287500000000000000000000000001953822100000000000000000000266275000000000000000000000000001980581400000000000000000000266262500000000000000000000000002034482900000000000000000000266250000000000000000000000000001998827600000000000000000000266237500000000000000000000000001941056300000000000000000000266225000000000000000000000000002071329700000000000000000000266212500000000000000000000000002004919900000000000000000000266200000000000000000000000000002033357200000000000000000000266187500000000000000000000000002103276600000000000000000000266175000000000000000000000000002111946900000000000000000000266162500000000000000000000000002053934400000000000000000000266150000000000000000000000000001991152400000000000000000000266137500000000000000000000000002050227700000000000000000000266125000000000000000000000000002031790200000000000000000000266112500000000000000000000000001894344400000000000000000000266100000000000000000000000000001964406300000000000000000000266087500000000000000000000000001903237800000000000000000000266075000000000000000000000000001862971500000000000000000000266062500000000000000000000000001808859000000000000000000000266050000000000000000000000000001954022500000000000000000000266037500000000000000000000000002043671600000000000000000000266025000000000000000000000000001955914500000000000000000000266012500000000000000000000000001847619400000000000000000000266000000000000000000000000000001982798000000000000000000000265987500000000000000000000000002020527100000000000000000000265975000000000000000000000000002125585200000000000000000000265962500000000000000000000000002166937100000000000000000000265950000000000000000000000000002167934600000000000000000000265937500000000000000000000000002002082100000000000000000000265925000000000000000000000000001934585000000000000000000000265912500000000000000000000000002038325200000000000000000000265900000000000000000000000000002126769500000000000000000000265887500000000000000000000000002197962300000000000000000000265875000000000000000000000000002096421300000000000000000000265862500000000000000000000000001863462000000000000000000000265850000000000000000000000000001896241300000000000000000000265837500000000000000000000000002098752500000000000000000000265825000000000000000000000000001965393200000000000000000000265812500000000000000000000000001924013900000000000000000000265800000000000000000000,
    1936534000000000000000000000267387500000000000000000000000002052385100000000000000000000267375000000000000000000000000002049280200000000000000000000267362500000000000000000000000001892352200000000000000000000267350000000000000000000000000001954929200000000000000000000267337500000000000000000000000001797332000000000000000000000267325000000000000000000000000001737833800000000000000000000267312500000000000000000000000001877146800000000000000000000267300000000000000000000000000001989489000000000000000000000267287500000000000000000000000001923522000000000000000000000267275000000000000000000000000001924965800000000000000000000267262500000000000000000000000001922122900000000000000000000267250000000000000000000000000002033198800000000000000000000267237500000000000000000000000001962713700000000000000000000267225000000000000000000000000002047425800000000000000000000267212500000000000000000000000002008987100000000000000000000267200000000000000000000000000001862561900000000000000000000267187500000000000000000000000001856123400000000000000000000267175000000000000000000000000001878116100000000000000000000267162500000000000000000000000002126887700000000000000000000267150000000000000000000000000001999744900000000000000000000267137500000000000000000000000002012600600000000000000000000267125000000000000000000000000002089210300000000000000000000267112500000000000000000000000002181307200000000000000000000267100000000000000000000000000002079500200000000000000000000267087500000000000000000000000002046121500000000000000000000267075000000000000000000000000002010933000000000000000000000267062500000000000000000000000001984395400000000000000000000267050000000000000000000000000001985801300000000000000000000267037500000000000000000000000001896495800000000000000000000267025000000000000000000000000001912442500000000000000000000267012500000000000000000000000001859817500000000000000000000267000000000000000000000000000002018717500000000000000000000266987500000000000000000000000001989436500000000000000000000266975000000000000000000000000002009852400000000000000000000266962500000000000000000000000001937081600000000000000000000266950000000000000000000000000001987982100000000000000000000266937500000000000000000000000002143625100000000000000000000266925000000000000000000000000002039802200000000000000000000266912500000000000000000000000002045009100000000000000000000266900000000000000000000000000002065140400000000000000000000266887500000000000000000000000002096659700000000000000000000266875000000000000000000000000002110709300000000000000000000266862500000000000000000000000002010943100000000000000000000266850000000000000000000000000002095763300000000000000000000266837500000000000000000000000002092009600000000000000000000266825000000000000000000000000001885412900000000000000000000266812500000000000000000000000001945680200000000000000000000266800000000000000000000000000001945972400000000000000000000266787500000000000000000000000001866615800000000000000000000266775000000000000000000000000001974988800000000000000000000266762500000000000000000000000002078815800000000000000000000266750000000000000000000000000002180306300000000000000000000266737500000000000000000000000002179555500000000000000000000266725000000000000000000000000002222385500000000000000000000266712500000000000000000000000002099222600000000000000000000266700000000000000000000000000002092194600000000000000000000266687500000000000000000000000002100610200000000000000000000266675000000000000000000000000002027282700000000000000000000266662500000000000000000000000002041905800000000000000000000266650000000000000000000000000002043576100000000000000000000266637500000000000000000000000001952708500000000000000000000266625000000000000000000000000002064620200000000000000000000266612500000000000000000000000002003526300000000000000000000266600000000000000000000,
    2037761100000000000000000000268187500000000000000000000000001953647900000000000000000000268175000000000000000000000000001991683500000000000000000000268162500000000000000000000000001949428300000000000000000000268150000000000000000000000000001972969200000000000000000000268137500000000000000000000000001877826100000000000000000000268125000000000000000000000000002154595600000000000000000000268112500000000000000000000000002209181200000000000000000000268100000000000000000000000000002083070000000000000000000000268087500000000000000000000000001967635100000000000000000000268075000000000000000000000000001945292700000000000000000000268062500000000000000000000000001898307300000000000000000000268050000000000000000000000000001967568600000000000000000000268037500000000000000000000000001909172500000000000000000000268025000000000000000000000000001916431000000000000000000000268012500000000000000000000000001868122400000000000000000000268000000000000000000000000000001962049200000000000000000000267987500000000000000000000000001955400200000000000000000000267975000000000000000000000000001954247700000000000000000000267962500000000000000000000000002020656100000000000000000000267950000000000000000000000000002064052200000000000000000000267937500000000000000000000000002039173400000000000000000000267925000000000000000000000000001960049400000000000000000000267912500000000000000000000000002039644300000000000000000000267900000000000000000000000000001963504200000000000000000000267887500000000000000000000000001816845500000000000000000000267875000000000000000000000000001903218000000000000000000000267862500000000000000000000000001827790800000000000000000000267850000000000000000000000000001750459200000000000000000000267837500000000000000000000000001875928800000000000000000000267825000000000000000000000000001938095700000000000000000000267812500000000000000000000000002039217200000000000000000000267800000000000000000000000000001986985600000000000000000000267787500000000000000000000000001899829200000000000000000000267775000000000000000000000000002040278500000000000000000000267762500000000000000000000000002033007300000000000000000000267750000000000000000000000000001892462400000000000000000000267737500000000000000000000000001825395000000000000000000000267725000000000000000000000000001950230000000000000000000000267712500000000000000000000000001939948600000000000000000000267700000000000000000000000000001923143600000000000000000000267687500000000000000000000000001982155600000000000000000000267675000000000000000000000000001978361000000000000000000000267662500000000000000000000000002061089600000000000000000000267650000000000000000000000000002067030200000000000000000000267637500000000000000000000000002034047600000000000000000000267625000000000000000000000000002130833100000000000000000000267612500000000000000000000000002185806900000000000000000000267600000000000000000000000000002112284700000000000000000000267587500000000000000000000000002023429500000000000000000000267575000000000000000000000000002079978400000000000000000000267562500000000000000000000000002047911100000000000000000000267550000000000000000000000000002041248500000000000000000000267537500000000000000000000000001912853800000000000000000000267525000000000000000000000000002098381200000000000000000000267512500000000000000000000000002198521500000000000000000000267500000000000000000000000000002171031200000000000000000000267487500000000000000000000000002007861800000000000000000000267475000000000000000000000000001813596900000000000000000000267462500000000000000000000000001813147600000000000000000000267450000000000000000000000000002029957800000000000000000000267437500000000000000000000000002071511000000000000000000000267425000000000000000000000000001872981800000000000000000000267412500000000000000000000000001804662100000000000000000000267400000000000000000000,
    1798409400000000000000000000268987500000000000000000000000002052685300000000000000000000268975000000000000000000000000002051532600000000000000000000268962500000000000000000000000002105336300000000000000000000268950000000000000000000000000002145282900000000000000000000268937500000000000000000000000001964816200000000000000000000268925000000000000000000000000001925310500000000000000000000268912500000000000000000000000002010924600000000000000000000268900000000000000000000000000002097367300000000000000000000268887500000000000000000000000001878859900000000000000000000268875000000000000000000000000001904169800000000000000000000268862500000000000000000000000001824108000000000000000000000268850000000000000000000000000001993248500000000000000000000268837500000000000000000000000002161041800000000000000000000268825000000000000000000000000001824689200000000000000000000268812500000000000000000000000001904784400000000000000000000268800000000000000000000000000002031330800000000000000000000268787500000000000000000000000002009544100000000000000000000268775000000000000000000000000001924315600000000000000000000268762500000000000000000000000001945089900000000000000000000268750000000000000000000000000002010945500000000000000000000268737500000000000000000000000002029609400000000000000000000268725000000000000000000000000002127728400000000000000000000268712500000000000000000000000002151608400000000000000000000268700000000000000000000000000002101062900000000000000000000268687500000000000000000000000002017873600000000000000000000268675000000000000000000000000002023396400000000000000000000268662500000000000000000000000001979368200000000000000000000268650000000000000000000000000001881776000000000000000000000268637500000000000000000000000001890093500000000000000000000268625000000000000000000000000001954017500000000000000000000268612500000000000000000000000001836988100000000000000000000268600000000000000000000000000001862383400000000000000000000268587500000000000000000000000001909404800000000000000000000268575000000000000000000000000002030039600000000000000000000268562500000000000000000000000002208679000000000000000000000268550000000000000000000000000002114782700000000000000000000268537500000000000000000000000002043313800000000000000000000268525000000000000000000000000002038877600000000000000000000268512500000000000000000000000002092778400000000000000000000268500000000000000000000000000002011819400000000000000000000268487500000000000000000000000001994381300000000000000000000268475000000000000000000000000001898976000000000000000000000268462500000000000000000000000001989953900000000000000000000268450000000000000000000000000001967683500000000000000000000268437500000000000000000000000001895480300000000000000000000268425000000000000000000000000001911977500000000000000000000268412500000000000000000000000002003275600000000000000000000268400000000000000000000000000001937329300000000000000000000268387500000000000000000000000001968666900000000000000000000268375000000000000000000000000001986807400000000000000000000268362500000000000000000000000001916634900000000000000000000268350000000000000000000000000002084170300000000000000000000268337500000000000000000000000002142519700000000000000000000268325000000000000000000000000002011010100000000000000000000268312500000000000000000000000001881074300000000000000000000268300000000000000000000000000001908136900000000000000000000268287500000000000000000000000001983261000000000000000000000268275000000000000000000000000002009373100000000000000000000268262500000000000000000000000001871697600000000000000000000268250000000000000000000000000002090384300000000000000000000268237500000000000000000000000002142487000000000000000000000268225000000000000000000000000002144198000000000000000000000268212500000000000000000000000002154046700000000000000000000268200000000000000000000,
    1950268300000000000000000000269787500000000000000000000000002075609800000000000000000000269775000000000000000000000000002074883100000000000000000000269762500000000000000000000000001979059200000000000000000000269750000000000000000000000000001979588000000000000000000000269737500000000000000000000000001904679200000000000000000000269725000000000000000000000000002064608300000000000000000000269712500000000000000000000000002116278100000000000000000000269700000000000000000000000000002075519500000000000000000000269687500000000000000000000000002152599800000000000000000000269675000000000000000000000000001969738900000000000000000000269662500000000000000000000000001946047700000000000000000000269650000000000000000000000000001892771800000000000000000000269637500000000000000000000000002063779600000000000000000000269625000000000000000000000000002165110100000000000000000000269612500000000000000000000000002082919700000000000000000000269600000000000000000000000000001992623200000000000000000000269587500000000000000000000000002013971000000000000000000000269575000000000000000000000000002028216500000000000000000000269562500000000000000000000000002106776400000000000000000000269550000000000000000000000000002081717400000000000000000000269537500000000000000000000000001979992500000000000000000000269525000000000000000000000000002034786100000000000000000000269512500000000000000000000000002095620300000000000000000000269500000000000000000000000000002033275600000000000000000000269487500000000000000000000000002042781400000000000000000000269475000000000000000000000000002033516100000000000000000000269462500000000000000000000000001989045600000000000000000000269450000000000000000000000000001934870100000000000000000000269437500000000000000000000000001987060400000000000000000000269425000000000000000000000000002009518800000000000000000000269412500000000000000000000000001950923300000000000000000000269400000000000000000000000000001813204400000000000000000000269387500000000000000000000000001932106900000000000000000000269375000000000000000000000000002056930600000000000000000000269362500000000000000000000000002090052600000000000000000000269350000000000000000000000000001968162000000000000000000000269337500000000000000000000000002024302900000000000000000000269325000000000000000000000000002022654400000000000000000000269312500000000000000000000000002026936500000000000000000000269300000000000000000000000000002082439600000000000000000000269287500000000000000000000000002201078500000000000000000000269275000000000000000000000000001995662600000000000000000000269262500000000000000000000000002063032600000000000000000000269250000000000000000000000000002134589600000000000000000000269237500000000000000000000000002150402900000000000000000000269225000000000000000000000000002185675700000000000000000000269212500000000000000000000000002126454200000000000000000000269200000000000000000000000000001984125300000000000000000000269187500000000000000000000000002130570400000000000000000000269175000000000000000000000000002061813900000000000000000000269162500000000000000000000000001971744200000000000000000000269150000000000000000000000000002085935300000000000000000000269137500000000000000000000000001943542000000000000000000000269125000000000000000000000000001885311100000000000000000000269112500000000000000000000000002019039000000000000000000000269100000000000000000000000000001934825200000000000000000000269087500000000000000000000000001876316500000000000000000000269075000000000000000000000000001984212700000000000000000000269062500000000000000000000000002160147500000000000000000000269050000000000000000000000000002116322600000000000000000000269037500000000000000000000000002039434400000000000000000000269025000000000000000000000000002059816600000000000000000000269012500000000000000000000000001855230700000000000000000000269000000000000000000000,
    2143855900000000000000000000270587500000000000000000000000002164204900000000000000000000270575000000000000000000000000002070640200000000000000000000270562500000000000000000000000001903497800000000000000000000270550000000000000000000000000001886159100000000000000000000270537500000000000000000000000001935225400000000000000000000270525000000000000000000000000001915397100000000000000000000270512500000000000000000000000002065184100000000000000000000270500000000000000000000000000001900431500000000000000000000270487500000000000000000000000001926015300000000000000000000270475000000000000000000000000002080103900000000000000000000270462500000000000000000000000002123749100000000000000000000270450000000000000000000000000001925169100000000000000000000270437500000000000000000000000001970687300000000000000000000270425000000000000000000000000001895262700000000000000000000270412500000000000000000000000001831813900000000000000000000270400000000000000000000000000001972185100000000000000000000270387500000000000000000000000001942167700000000000000000000270375000000000000000000000000001874297400000000000000000000270362500000000000000000000000001803395600000000000000000000270350000000000000000000000000001860893000000000000000000000270337500000000000000000000000001937513400000000000000000000270325000000000000000000000000002000550000000000000000000000270312500000000000000000000000002129316300000000000000000000270300000000000000000000000000002160038000000000000000000000270287500000000000000000000000002073184600000000000000000000270275000000000000000000000000001978705300000000000000000000270262500000000000000000000000001973459800000000000000000000270250000000000000000000000000001996672900000000000000000000270237500000000000000000000000001890129100000000000000000000270225000000000000000000000000001812563000000000000000000000270212500000000000000000000000001957343100000000000000000000270200000000000000000000000000002102663900000000000000000000270187500000000000000000000000002144416200000000000000000000270175000000000000000000000000002100608100000000000000000000270162500000000000000000000000001979698500000000000000000000270150000000000000000000000000002126227500000000000000000000270137500000000000000000000000002034239100000000000000000000270125000000000000000000000000001999902100000000000000000000270112500000000000000000000000002048136400000000000000000000270100000000000000000000000000002130625300000000000000000000270087500000000000000000000000002116958300000000000000000000270075000000000000000000000000002011198300000000000000000000270062500000000000000000000000002102350500000000000000000000270050000000000000000000000000002011165400000000000000000000270037500000000000000000000000001897168300000000000000000000270025000000000000000000000000001892653600000000000000000000270012500000000000000000000000001924924000000000000000000000270000000000000000000000000000002068643300000000000000000000269987500000000000000000000000002107944100000000000000000000269975000000000000000000000000002047442800000000000000000000269962500000000000000000000000002000151900000000000000000000269950000000000000000000000000002086999500000000000000000000269937500000000000000000000000002063437100000000000000000000269925000000000000000000000000002054035200000000000000000000269912500000000000000000000000002016181200000000000000000000269900000000000000000000000000001968467800000000000000000000269887500000000000000000000000002010705900000000000000000000269875000000000000000000000000001987440300000000000000000000269862500000000000000000000000002070563400000000000000000000269850000000000000000000000000002004114600000000000000000000269837500000000000000000000000001855241700000000000000000000269825000000000000000000000000001896783500000000000000000000269812500000000000000000000000001804406400000000000000000000269800000000000000000000,
    2084690700000000000000000000271387500000000000000000000000002102744100000000000000000000271375000000000000000000000000001950605500000000000000000000271362500000000000000000000000001799008900000000000000000000271350000000000000000000000000001790053400000000000000000000271337500000000000000000000000001828690600000000000000000000271325000000000000000000000000001943786700000000000000000000271312500000000000000000000000002101651100000000000000000000271300000000000000000000000000002113739900000000000000000000271287500000000000000000000000002172118300000000000000000000271275000000000000000000000000002058550100000000000000000000271262500000000000000000000000001900077000000000000000000000271250000000000000000000000000002063176400000000000000000000271237500000000000000000000000002034572800000000000000000000271225000000000000000000000000001862452400000000000000000000271212500000000000000000000000001888267900000000000000000000271200000000000000000000000000001830872800000000000000000000271187500000000000000000000000002004784400000000000000000000271175000000000000000000000000002074600100000000000000000000271162500000000000000000000000001979377400000000000000000000271150000000000000000000000000001902935500000000000000000000271137500000000000000000000000001884194100000000000000000000271125000000000000000000000000001834916700000000000000000000271112500000000000000000000000002056809600000000000000000000271100000000000000000000000000002135984400000000000000000000271087500000000000000000000000001988060200000000000000000000271075000000000000000000000000001769269400000000000000000000271062500000000000000000000000001839993600000000000000000000271050000000000000000000000000001923932900000000000000000000271037500000000000000000000000001903925700000000000000000000271025000000000000000000000000002038287800000000000000000000271012500000000000000000000000002033153100000000000000000000271000000000000000000000000000001986453300000000000000000000270987500000000000000000000000002159269500000000000000000000270975000000000000000000000000002010633500000000000000000000270962500000000000000000000000002099259400000000000000000000270950000000000000000000000000002064214300000000000000000000270937500000000000000000000000001991601700000000000000000000270925000000000000000000000000002007703500000000000000000000270912500000000000000000000000001971800100000000000000000000270900000000000000000000000000001987118700000000000000000000270887500000000000000000000000002019691800000000000000000000270875000000000000000000000000002064396300000000000000000000270862500000000000000000000000002117929100000000000000000000270850000000000000000000000000001940471400000000000000000000270837500000000000000000000000002101341300000000000000000000270825000000000000000000000000002113444100000000000000000000270812500000000000000000000000002016590600000000000000000000270800000000000000000000000000001994909800000000000000000000270787500000000000000000000000001878883800000000000000000000270775000000000000000000000000001944085200000000000000000000270762500000000000000000000000002071496300000000000000000000270750000000000000000000000000001878527600000000000000000000270737500000000000000000000000001897001600000000000000000000270725000000000000000000000000002210612700000000000000000000270712500000000000000000000000002154644900000000000000000000270700000000000000000000000000002170895600000000000000000000270687500000000000000000000000002132831700000000000000000000270675000000000000000000000000002144405000000000000000000000270662500000000000000000000000002075169500000000000000000000270650000000000000000000000000002073742600000000000000000000270637500000000000000000000000001890509400000000000000000000270625000000000000000000000000001871380500000000000000000000270612500000000000000000000000001993359100000000000000000000270600000000000000000000,
    2231850600000000000000000000272187500000000000000000000000001933940400000000000000000000272175000000000000000000000000001903309400000000000000000000272162500000000000000000000000001978795100000000000000000000272150000000000000000000000000002070961400000000000000000000272137500000000000000000000000002097440000000000000000000000272125000000000000000000000000002000821900000000000000000000272112500000000000000000000000001944548000000000000000000000272100000000000000000000000000002052568900000000000000000000272087500000000000000000000000002180875000000000000000000000272075000000000000000000000000002069244300000000000000000000272062500000000000000000000000001973460000000000000000000000272050000000000000000000000000002052838500000000000000000000272037500000000000000000000000002133827200000000000000000000272025000000000000000000000000001874495100000000000000000000272012500000000000000000000000001845192900000000000000000000272000000000000000000000000000002016059800000000000000000000271987500000000000000000000000002135184900000000000000000000271975000000000000000000000000002134249700000000000000000000271962500000000000000000000000002027786700000000000000000000271950000000000000000000000000002002074900000000000000000000271937500000000000000000000000002009756300000000000000000000271925000000000000000000000000002120700300000000000000000000271912500000000000000000000000002092616800000000000000000000271900000000000000000000000000001898664700000000000000000000271887500000000000000000000000001959922700000000000000000000271875000000000000000000000000002047092500000000000000000000271862500000000000000000000000001883070400000000000000000000271850000000000000000000000000001941743300000000000000000000271837500000000000000000000000002032657100000000000000000000271825000000000000000000000000002023057800000000000000000000271812500000000000000000000000001959748700000000000000000000271800000000000000000000000000001982290600000000000000000000271787500000000000000000000000001998489800000000000000000000271775000000000000000000000000001931809600000000000000000000271762500000000000000000000000001984606700000000000000000000271750000000000000000000000000002018439700000000000000000000271737500000000000000000000000001938640200000000000000000000271725000000000000000000000000002136230700000000000000000000271712500000000000000000000000002116850500000000000000000000271700000000000000000000000000002006801900000000000000000000271687500000000000000000000000002041085000000000000000000000271675000000000000000000000000002078357300000000000000000000271662500000000000000000000000002068428900000000000000000000271650000000000000000000000000001974832000000000000000000000271637500000000000000000000000001879918400000000000000000000271625000000000000000000000000002114092100000000000000000000271612500000000000000000000000002096019600000000000000000000271600000000000000000000000000002087260600000000000000000000271587500000000000000000000000002263722200000000000000000000271575000000000000000000000000002141866100000000000000000000271562500000000000000000000000002003470600000000000000000000271550000000000000000000000000002056694800000000000000000000271537500000000000000000000000001997583300000000000000000000271525000000000000000000000000002097720500000000000000000000271512500000000000000000000000002143422200000000000000000000271500000000000000000000000000002102379600000000000000000000271487500000000000000000000000001998842900000000000000000000271475000000000000000000000000001941993500000000000000000000271462500000000000000000000000002017247700000000000000000000271450000000000000000000000000002008501200000000000000000000271437500000000000000000000000002030668500000000000000000000271425000000000000000000000000002056822600000000000000000000271412500000000000000000000000002052636800000000000000000000271400000000000000000000,
    1904658300000000000000000000272987500000000000000000000000002013426400000000000000000000272975000000000000000000000000002059751000000000000000000000272962500000000000000000000000002202978300000000000000000000272950000000000000000000000000002044998200000000000000000000272937500000000000000000000000001877190200000000000000000000272925000000000000000000000000001875222300000000000000000000272912500000000000000000000000001936626900000000000000000000272900000000000000000000000000001825719400000000000000000000272887500000000000000000000000001951129900000000000000000000272875000000000000000000000000001847087700000000000000000000272862500000000000000000000000001952701000000000000000000000272850000000000000000000000000002044178800000000000000000000272837500000000000000000000000002031700700000000000000000000272825000000000000000000000000002115477800000000000000000000272812500000000000000000000000002054144700000000000000000000272800000000000000000000000000002147551300000000000000000000272787500000000000000000000000002219334100000000000000000000272775000000000000000000000000002233104400000000000000000000272762500000000000000000000000002102564400000000000000000000272750000000000000000000000000001988241400000000000000000000272737500000000000000000000000001976173300000000000000000000272725000000000000000000000000002199734700000000000000000000272712500000000000000000000000002185628400000000000000000000272700000000000000000000000000001979393600000000000000000000272687500000000000000000000000001963512700000000000000000000272675000000000000000000000000001912730800000000000000000000272662500000000000000000000000001988130000000000000000000000272650000000000000000000000000002031358600000000000000000000272637500000000000000000000000002083243500000000000000000000272625000000000000000000000000002088638100000000000000000000272612500000000000000000000000002083755100000000000000000000272600000000000000000000000000002085789800000000000000000000272587500000000000000000000000002083356500000000000000000000272575000000000000000000000000002015988800000000000000000000272562500000000000000000000000002010079200000000000000000000272550000000000000000000000000001957097200000000000000000000272537500000000000000000000000001889151000000000000000000000272525000000000000000000000000001926648800000000000000000000272512500000000000000000000000001759004900000000000000000000272500000000000000000000000000001843839800000000000000000000272487500000000000000000000000002028722400000000000000000000272475000000000000000000000000001959582700000000000000000000272462500000000000000000000000002158813200000000000000000000272450000000000000000000000000002328650600000000000000000000272437500000000000000000000000002100435200000000000000000000272425000000000000000000000000001997162800000000000000000000272412500000000000000000000000002151418300000000000000000000272400000000000000000000000000002083181400000000000000000000272387500000000000000000000000002025177600000000000000000000272375000000000000000000000000002001096100000000000000000000272362500000000000000000000000002036181900000000000000000000272350000000000000000000000000002071532100000000000000000000272337500000000000000000000000002003904800000000000000000000272325000000000000000000000000001896519300000000000000000000272312500000000000000000000000001943873700000000000000000000272300000000000000000000000000002167291600000000000000000000272287500000000000000000000000002057217700000000000000000000272275000000000000000000000000002110136900000000000000000000272262500000000000000000000000002014414400000000000000000000272250000000000000000000000000002060020900000000000000000000272237500000000000000000000000002081489900000000000000000000272225000000000000000000000000002130025100000000000000000000272212500000000000000000000000002176063400000000000000000000272200000000000000000000,
    1929233500000000000000000000273787500000000000000000000000001928859000000000000000000000273775000000000000000000000000002047918600000000000000000000273762500000000000000000000000002050570800000000000000000000273750000000000000000000000000001946451400000000000000000000273737500000000000000000000000001727936200000000000000000000273725000000000000000000000000001882573100000000000000000000273712500000000000000000000000002071143200000000000000000000273700000000000000000000000000002100919900000000000000000000273687500000000000000000000000002062412600000000000000000000273675000000000000000000000000002027346300000000000000000000273662500000000000000000000000002082767100000000000000000000273650000000000000000000000000002128298200000000000000000000273637500000000000000000000000002108179700000000000000000000273625000000000000000000000000002003147700000000000000000000273612500000000000000000000000002091024900000000000000000000273600000000000000000000000000002121312300000000000000000000273587500000000000000000000000002150829700000000000000000000273575000000000000000000000000001933880000000000000000000000273562500000000000000000000000001970558500000000000000000000273550000000000000000000000000002029194400000000000000000000273537500000000000000000000000002020889400000000000000000000273525000000000000000000000000002036460500000000000000000000273512500000000000000000000000002067868700000000000000000000273500000000000000000000000000002128176100000000000000000000273487500000000000000000000000002022969400000000000000000000273475000000000000000000000000001933084300000000000000000000273462500000000000000000000000002021373200000000000000000000273450000000000000000000000000001900012200000000000000000000273437500000000000000000000000001906361700000000000000000000273425000000000000000000000000001945533700000000000000000000273412500000000000000000000000002076022000000000000000000000273400000000000000000000000000002136911800000000000000000000273387500000000000000000000000001916577700000000000000000000273375000000000000000000000000001902056500000000000000000000273362500000000000000000000000002149306600000000000000000000273350000000000000000000000000002317856200000000000000000000273337500000000000000000000000002204661300000000000000000000273325000000000000000000000000002015786900000000000000000000273312500000000000000000000000001951922300000000000000000000273300000000000000000000000000002181892700000000000000000000273287500000000000000000000000002252485300000000000000000000273275000000000000000000000000002291473500000000000000000000273262500000000000000000000000002169481300000000000000000000273250000000000000000000000000002126109400000000000000000000273237500000000000000000000000002066849500000000000000000000273225000000000000000000000000001995916800000000000000000000273212500000000000000000000000001898049900000000000000000000273200000000000000000000000000002075694900000000000000000000273187500000000000000000000000001884788500000000000000000000273175000000000000000000000000001866897300000000000000000000273162500000000000000000000000002185229500000000000000000000273150000000000000000000000000002150037600000000000000000000273137500000000000000000000000002048086800000000000000000000273125000000000000000000000000001981931900000000000000000000273112500000000000000000000000002070712400000000000000000000273100000000000000000000000000002049789600000000000000000000273087500000000000000000000000002008704700000000000000000000273075000000000000000000000000002033140100000000000000000000273062500000000000000000000000002139943100000000000000000000273050000000000000000000000000002008562500000000000000000000273037500000000000000000000000001971948600000000000000000000273025000000000000000000000000002164978400000000000000000000273012500000000000000000000000001969132900000000000000000000273000000000000000000000,
    1943663700000000000000000000274587500000000000000000000000001853705100000000000000000000274575000000000000000000000000001836174400000000000000000000274562500000000000000000000000002078257200000000000000000000274550000000000000000000000000002174666200000000000000000000274537500000000000000000000000002071159000000000000000000000274525000000000000000000000000002097547000000000000000000000274512500000000000000000000000002173780200000000000000000000274500000000000000000000000000002194721800000000000000000000274487500000000000000000000000002113189700000000000000000000274475000000000000000000000000002012827800000000000000000000274462500000000000000000000000002113053800000000000000000000274450000000000000000000000000002081394700000000000000000000274437500000000000000000000000002174727600000000000000000000274425000000000000000000000000002144782600000000000000000000274412500000000000000000000000002309190400000000000000000000274400000000000000000000000000001987340900000000000000000000274387500000000000000000000000001963052600000000000000000000274375000000000000000000000000002023944200000000000000000000274362500000000000000000000000001988566300000000000000000000274350000000000000000000000000002057403300000000000000000000274337500000000000000000000000002022091400000000000000000000274325000000000000000000000000002043047000000000000000000000274312500000000000000000000000002022635000000000000000000000274300000000000000000000000000001889446700000000000000000000274287500000000000000000000000001925293200000000000000000000274275000000000000000000000000001889716700000000000000000000274262500000000000000000000000001937499100000000000000000000274250000000000000000000000000001938143700000000000000000000274237500000000000000000000000001792321200000000000000000000274225000000000000000000000000001878778200000000000000000000274212500000000000000000000000001980118800000000000000000000274200000000000000000000000000002114996500000000000000000000274187500000000000000000000000002178861700000000000000000000274175000000000000000000000000002092650300000000000000000000274162500000000000000000000000002003021700000000000000000000274150000000000000000000000000002056962200000000000000000000274137500000000000000000000000002105805300000000000000000000274125000000000000000000000000002069381600000000000000000000274112500000000000000000000000002027747600000000000000000000274100000000000000000000000000002081034700000000000000000000274087500000000000000000000000002116185900000000000000000000274075000000000000000000000000002081202200000000000000000000274062500000000000000000000000001992142200000000000000000000274050000000000000000000000000002040415400000000000000000000274037500000000000000000000000002070653300000000000000000000274025000000000000000000000000001913825200000000000000000000274012500000000000000000000000001822129000000000000000000000274000000000000000000000000000001901872100000000000000000000273987500000000000000000000000002060756500000000000000000000273975000000000000000000000000002026574300000000000000000000273962500000000000000000000000001957615200000000000000000000273950000000000000000000000000001928717300000000000000000000273937500000000000000000000000001929553800000000000000000000273925000000000000000000000000002080015400000000000000000000273912500000000000000000000000002099876300000000000000000000273900000000000000000000000000002030600500000000000000000000273887500000000000000000000000001917313500000000000000000000273875000000000000000000000000002018095300000000000000000000273862500000000000000000000000002055444900000000000000000000273850000000000000000000000000002122662900000000000000000000273837500000000000000000000000002155303200000000000000000000273825000000000000000000000000002017560200000000000000000000273812500000000000000000000000002049135000000000000000000000273800000000000000000000,
    2133340900000000000000000000275387500000000000000000000000002030186200000000000000000000275375000000000000000000000000001943326300000000000000000000275362500000000000000000000000002045820900000000000000000000275350000000000000000000000000002150421400000000000000000000275337500000000000000000000000002079764300000000000000000000275325000000000000000000000000002112079200000000000000000000275312500000000000000000000000001987814800000000000000000000275300000000000000000000000000002046506000000000000000000000275287500000000000000000000000002102198000000000000000000000275275000000000000000000000000002119606100000000000000000000275262500000000000000000000000002141983400000000000000000000275250000000000000000000000000002096218900000000000000000000275237500000000000000000000000002038029400000000000000000000275225000000000000000000000000002050343700000000000000000000275212500000000000000000000000002045820600000000000000000000275200000000000000000000000000001926033200000000000000000000275187500000000000000000000000002073424700000000000000000000275175000000000000000000000000001929278500000000000000000000275162500000000000000000000000001903338400000000000000000000275150000000000000000000000000001971487800000000000000000000275137500000000000000000000000001909896700000000000000000000275125000000000000000000000000001913219800000000000000000000275112500000000000000000000000002143812500000000000000000000275100000000000000000000000000002032612900000000000000000000275087500000000000000000000000001967723100000000000000000000275075000000000000000000000000001995598600000000000000000000275062500000000000000000000000001894478700000000000000000000275050000000000000000000000000001997046300000000000000000000275037500000000000000000000000002086567100000000000000000000275025000000000000000000000000001949571600000000000000000000275012500000000000000000000000002045767100000000000000000000275000000000000000000000000000002004984500000000000000000000274987500000000000000000000000002040968200000000000000000000274975000000000000000000000000002157278100000000000000000000274962500000000000000000000000002175771700000000000000000000274950000000000000000000000000001931599200000000000000000000274937500000000000000000000000002029191900000000000000000000274925000000000000000000000000002106131500000000000000000000274912500000000000000000000000001983498900000000000000000000274900000000000000000000000000002009747500000000000000000000274887500000000000000000000000002115305800000000000000000000274875000000000000000000000000001991986500000000000000000000274862500000000000000000000000001947428800000000000000000000274850000000000000000000000000002048236500000000000000000000274837500000000000000000000000002098408100000000000000000000274825000000000000000000000000001986703800000000000000000000274812500000000000000000000000002014660700000000000000000000274800000000000000000000000000002005218200000000000000000000274787500000000000000000000000001992548500000000000000000000274775000000000000000000000000002079232400000000000000000000274762500000000000000000000000002103431400000000000000000000274750000000000000000000000000002034947000000000000000000000274737500000000000000000000000001969819900000000000000000000274725000000000000000000000000001961387600000000000000000000274712500000000000000000000000002082327200000000000000000000274700000000000000000000000000002106090900000000000000000000274687500000000000000000000000001938533000000000000000000000274675000000000000000000000000001951623300000000000000000000274662500000000000000000000000002122081200000000000000000000274650000000000000000000000000002073723700000000000000000000274637500000000000000000000000002030262800000000000000000000274625000000000000000000000000001961811100000000000000000000274612500000000000000000000000001898136000000000000000000000274600000000000000000000,
    2030529000000000000000000000276187500000000000000000000000002222398200000000000000000000276175000000000000000000000000002154225000000000000000000000276162500000000000000000000000001983326700000000000000000000276150000000000000000000000000002057248100000000000000000000276137500000000000000000000000002020273200000000000000000000276125000000000000000000000000002212586500000000000000000000276112500000000000000000000000002209398900000000000000000000276100000000000000000000000000002048127200000000000000000000276087500000000000000000000000002006473000000000000000000000276075000000000000000000000000002104459800000000000000000000276062500000000000000000000000002033716700000000000000000000276050000000000000000000000000002025058200000000000000000000276037500000000000000000000000002107508100000000000000000000276025000000000000000000000000001971254500000000000000000000276012500000000000000000000000001945512400000000000000000000276000000000000000000000000000002089618900000000000000000000275987500000000000000000000000002116459300000000000000000000275975000000000000000000000000002084255300000000000000000000275962500000000000000000000000002209684500000000000000000000275950000000000000000000000000002295389300000000000000000000275937500000000000000000000000001924028200000000000000000000275925000000000000000000000000002022873200000000000000000000275912500000000000000000000000002078119600000000000000000000275900000000000000000000000000002173419400000000000000000000275887500000000000000000000000002126816300000000000000000000275875000000000000000000000000002206116000000000000000000000275862500000000000000000000000002008346900000000000000000000275850000000000000000000000000002027018300000000000000000000275837500000000000000000000000001999217400000000000000000000275825000000000000000000000000002017329200000000000000000000275812500000000000000000000000002114816100000000000000000000275800000000000000000000000000001983889000000000000000000000275787500000000000000000000000002064004700000000000000000000275775000000000000000000000000002084103800000000000000000000275762500000000000000000000000002122291500000000000000000000275750000000000000000000000000002203463600000000000000000000275737500000000000000000000000002005589800000000000000000000275725000000000000000000000000001924839400000000000000000000275712500000000000000000000000001944129400000000000000000000275700000000000000000000000000002040231100000000000000000000275687500000000000000000000000002053701800000000000000000000275675000000000000000000000000002069211800000000000000000000275662500000000000000000000000002018687600000000000000000000275650000000000000000000000000002066300300000000000000000000275637500000000000000000000000002000002100000000000000000000275625000000000000000000000000002049767700000000000000000000275612500000000000000000000000002083166600000000000000000000275600000000000000000000000000002197982900000000000000000000275587500000000000000000000000002100675500000000000000000000275575000000000000000000000000001946987900000000000000000000275562500000000000000000000000002025904800000000000000000000275550000000000000000000000000002056154900000000000000000000275537500000000000000000000000002079661700000000000000000000275525000000000000000000000000001923035900000000000000000000275512500000000000000000000000001922326300000000000000000000275500000000000000000000000000001958163300000000000000000000275487500000000000000000000000001916009100000000000000000000275475000000000000000000000000001894107800000000000000000000275462500000000000000000000000001944351800000000000000000000275450000000000000000000000000002026633300000000000000000000275437500000000000000000000000002070143200000000000000000000275425000000000000000000000000002039550900000000000000000000275412500000000000000000000000002068406900000000000000000000275400000000000000000000,
    2208771700000000000000000000276987500000000000000000000000002075869500000000000000000000276975000000000000000000000000002145202500000000000000000000276962500000000000000000000000002307886500000000000000000000276950000000000000000000000000002087683800000000000000000000276937500000000000000000000000002110608800000000000000000000276925000000000000000000000000002069651200000000000000000000276912500000000000000000000000002194425600000000000000000000276900000000000000000000000000002178634700000000000000000000276887500000000000000000000000001982106300000000000000000000276875000000000000000000000000001953281400000000000000000000276862500000000000000000000000002002520700000000000000000000276850000000000000000000000000001998210300000000000000000000276837500000000000000000000000002059840100000000000000000000276825000000000000000000000000002092625400000000000000000000276812500000000000000000000000002067862200000000000000000000276800000000000000000000000000002038986600000000000000000000276787500000000000000000000000001996976500000000000000000000276775000000000000000000000000002150297600000000000000000000276762500000000000000000000000002182273100000000000000000000276750000000000000000000000000001959925400000000000000000000276737500000000000000000000000002025276400000000000000000000276725000000000000000000000000001919862100000000000000000000276712500000000000000000000000001904148200000000000000000000276700000000000000000000000000002061028300000000000000000000276687500000000000000000000000002255201100000000000000000000276675000000000000000000000000002235100200000000000000000000276662500000000000000000000000002146803900000000000000000000276650000000000000000000000000002075783600000000000000000000276637500000000000000000000000001956834200000000000000000000276625000000000000000000000000002051969700000000000000000000276612500000000000000000000000002198797500000000000000000000276600000000000000000000000000002179332000000000000000000000276587500000000000000000000000002015313600000000000000000000276575000000000000000000000000002244573200000000000000000000276562500000000000000000000000002064725300000000000000000000276550000000000000000000000000002131753300000000000000000000276537500000000000000000000000002200168400000000000000000000276525000000000000000000000000001972376500000000000000000000276512500000000000000000000000002226531700000000000000000000276500000000000000000000000000002216239900000000000000000000276487500000000000000000000000002099464900000000000000000000276475000000000000000000000000001948632000000000000000000000276462500000000000000000000000001916747200000000000000000000276450000000000000000000000000002117065700000000000000000000276437500000000000000000000000002066017500000000000000000000276425000000000000000000000000002146034600000000000000000000276412500000000000000000000000002117511800000000000000000000276400000000000000000000000000002050799600000000000000000000276387500000000000000000000000002096773600000000000000000000276375000000000000000000000000002092918900000000000000000000276362500000000000000000000000002036407000000000000000000000276350000000000000000000000000002034922800000000000000000000276337500000000000000000000000002026553700000000000000000000276325000000000000000000000000001961248900000000000000000000276312500000000000000000000000002068807400000000000000000000276300000000000000000000000000002116958600000000000000000000276287500000000000000000000000001998670900000000000000000000276275000000000000000000000000002098135600000000000000000000276262500000000000000000000000002156033100000000000000000000276250000000000000000000000000002120830000000000000000000000276237500000000000000000000000002242711500000000000000000000276225000000000000000000000000002038114300000000000000000000276212500000000000000000000000001901354400000000000000000000276200000000000000000000,
    1976562100000000000000000000277787500000000000000000000000002027703200000000000000000000277775000000000000000000000000001978454000000000000000000000277762500000000000000000000000001946643900000000000000000000277750000000000000000000000000001938680600000000000000000000277737500000000000000000000000001982685500000000000000000000277725000000000000000000000000002270093500000000000000000000277712500000000000000000000000002200851700000000000000000000277700000000000000000000000000002069732500000000000000000000277687500000000000000000000000001933646900000000000000000000277675000000000000000000000000002123012400000000000000000000277662500000000000000000000000002138567000000000000000000000277650000000000000000000000000002146900500000000000000000000277637500000000000000000000000002180176800000000000000000000277625000000000000000000000000001961486100000000000000000000277612500000000000000000000000002037930700000000000000000000277600000000000000000000000000002006778500000000000000000000277587500000000000000000000000002105057300000000000000000000277575000000000000000000000000001882876800000000000000000000277562500000000000000000000000001987003700000000000000000000277550000000000000000000000000002195685900000000000000000000277537500000000000000000000000002360518300000000000000000000277525000000000000000000000000002209560600000000000000000000277512500000000000000000000000002207110400000000000000000000277500000000000000000000000000002049089800000000000000000000277487500000000000000000000000002014417100000000000000000000277475000000000000000000000000002186684600000000000000000000277462500000000000000000000000002093818100000000000000000000277450000000000000000000000000002017362600000000000000000000277437500000000000000000000000002119850500000000000000000000277425000000000000000000000000002173783300000000000000000000277412500000000000000000000000002171584200000000000000000000277400000000000000000000000000001966014000000000000000000000277387500000000000000000000000001970222100000000000000000000277375000000000000000000000000002094324700000000000000000000277362500000000000000000000000002034127400000000000000000000277350000000000000000000000000001978740700000000000000000000277337500000000000000000000000001995865800000000000000000000277325000000000000000000000000001954605200000000000000000000277312500000000000000000000000002013354600000000000000000000277300000000000000000000000000002143828600000000000000000000277287500000000000000000000000002145451000000000000000000000277275000000000000000000000000002088952400000000000000000000277262500000000000000000000000002082125800000000000000000000277250000000000000000000000000002059000100000000000000000000277237500000000000000000000000002036087000000000000000000000277225000000000000000000000000001968480900000000000000000000277212500000000000000000000000002053623700000000000000000000277200000000000000000000000000002128998000000000000000000000277187500000000000000000000000002055399400000000000000000000277175000000000000000000000000002165678600000000000000000000277162500000000000000000000000002178947500000000000000000000277150000000000000000000000000002079297600000000000000000000277137500000000000000000000000002204328200000000000000000000277125000000000000000000000000002344634400000000000000000000277112500000000000000000000000002304465200000000000000000000277100000000000000000000000000002111670800000000000000000000277087500000000000000000000000002177921500000000000000000000277075000000000000000000000000002248113200000000000000000000277062500000000000000000000000002221522600000000000000000000277050000000000000000000000000002263301000000000000000000000277037500000000000000000000000002180678500000000000000000000277025000000000000000000000000002109148100000000000000000000277012500000000000000000000000002134738300000000000000000000277000000000000000000000,
    2134012400000000000000000000278587500000000000000000000000002044456600000000000000000000278575000000000000000000000000002137016700000000000000000000278562500000000000000000000000002293852100000000000000000000278550000000000000000000000000002069367000000000000000000000278537500000000000000000000000002003175600000000000000000000278525000000000000000000000000002202323400000000000000000000278512500000000000000000000000002205463500000000000000000000278500000000000000000000000000002233465600000000000000000000278487500000000000000000000000001966423900000000000000000000278475000000000000000000000000002030993900000000000000000000278462500000000000000000000000002184335600000000000000000000278450000000000000000000000000002245375400000000000000000000278437500000000000000000000000002166181400000000000000000000278425000000000000000000000000002141719600000000000000000000278412500000000000000000000000002199155700000000000000000000278400000000000000000000000000002101026800000000000000000000278387500000000000000000000000002087840100000000000000000000278375000000000000000000000000002010896200000000000000000000278362500000000000000000000000002036614400000000000000000000278350000000000000000000000000002117899100000000000000000000278337500000000000000000000000002077334500000000000000000000278325000000000000000000000000002293709400000000000000000000278312500000000000000000000000002211345500000000000000000000278300000000000000000000000000002127432800000000000000000000278287500000000000000000000000002048561700000000000000000000278275000000000000000000000000002225095900000000000000000000278262500000000000000000000000002358066400000000000000000000278250000000000000000000000000002314697400000000000000000000278237500000000000000000000000002009976600000000000000000000278225000000000000000000000000001965563800000000000000000000278212500000000000000000000000002001441900000000000000000000278200000000000000000000000000001977149100000000000000000000278187500000000000000000000000001975195000000000000000000000278175000000000000000000000000002026868300000000000000000000278162500000000000000000000000001906917400000000000000000000278150000000000000000000000000002004872300000000000000000000278137500000000000000000000000002182060000000000000000000000278125000000000000000000000000002214079300000000000000000000278112500000000000000000000000002206932900000000000000000000278100000000000000000000000000002011133200000000000000000000278087500000000000000000000000002150591200000000000000000000278075000000000000000000000000002250497000000000000000000000278062500000000000000000000000002123106200000000000000000000278050000000000000000000000000002279358500000000000000000000278037500000000000000000000000002114424300000000000000000000278025000000000000000000000000002176606000000000000000000000278012500000000000000000000000002121907500000000000000000000278000000000000000000000000000002015952100000000000000000000277987500000000000000000000000002076182400000000000000000000277975000000000000000000000000002049682400000000000000000000277962500000000000000000000000002105057500000000000000000000277950000000000000000000000000002147519800000000000000000000277937500000000000000000000000001872857600000000000000000000277925000000000000000000000000002193991800000000000000000000277912500000000000000000000000002215424700000000000000000000277900000000000000000000000000001958012500000000000000000000277887500000000000000000000000001943810600000000000000000000277875000000000000000000000000001874135300000000000000000000277862500000000000000000000000002075394000000000000000000000277850000000000000000000000000002122290500000000000000000000277837500000000000000000000000002104320300000000000000000000277825000000000000000000000000002098163000000000000000000000277812500000000000000000000000001937746000000000000000000000277800000000000000000000,
    2099838900000000000000000000279387500000000000000000000000002037397200000000000000000000279375000000000000000000000000002100080700000000000000000000279362500000000000000000000000002033684200000000000000000000279350000000000000000000000000002193726300000000000000000000279337500000000000000000000000002282203500000000000000000000279325000000000000000000000000002282041400000000000000000000279312500000000000000000000000002088470200000000000000000000279300000000000000000000000000001969758500000000000000000000279287500000000000000000000000002050435700000000000000000000279275000000000000000000000000002158078900000000000000000000279262500000000000000000000000002177809500000000000000000000279250000000000000000000000000002113371600000000000000000000279237500000000000000000000000002198172900000000000000000000279225000000000000000000000000002121046900000000000000000000279212500000000000000000000000001982919200000000000000000000279200000000000000000000000000002170283300000000000000000000279187500000000000000000000000002188338000000000000000000000279175000000000000000000000000001955715500000000000000000000279162500000000000000000000000001930885900000000000000000000279150000000000000000000000000001950946700000000000000000000279137500000000000000000000000001950919200000000000000000000279125000000000000000000000000002099325500000000000000000000279112500000000000000000000000002215504300000000000000000000279100000000000000000000000000002153255000000000000000000000279087500000000000000000000000002045070200000000000000000000279075000000000000000000000000002073054700000000000000000000279062500000000000000000000000002023090700000000000000000000279050000000000000000000000000002035275200000000000000000000279037500000000000000000000000002273613900000000000000000000279025000000000000000000000000002257379300000000000000000000279012500000000000000000000000002084926700000000000000000000279000000000000000000000000000001908417200000000000000000000278987500000000000000000000000001939411900000000000000000000278975000000000000000000000000002211162900000000000000000000278962500000000000000000000000002340206400000000000000000000278950000000000000000000000000002170350600000000000000000000278937500000000000000000000000002055923300000000000000000000278925000000000000000000000000002160699300000000000000000000278912500000000000000000000000002219161100000000000000000000278900000000000000000000000000002169930500000000000000000000278887500000000000000000000000002261495700000000000000000000278875000000000000000000000000002136643900000000000000000000278862500000000000000000000000001997857300000000000000000000278850000000000000000000000000002179825000000000000000000000278837500000000000000000000000002072066500000000000000000000278825000000000000000000000000002056612400000000000000000000278812500000000000000000000000002093225400000000000000000000278800000000000000000000000000002051852300000000000000000000278787500000000000000000000000002056209500000000000000000000278775000000000000000000000000002076790400000000000000000000278762500000000000000000000000002225372800000000000000000000278750000000000000000000000000002192550600000000000000000000278737500000000000000000000000002070122400000000000000000000278725000000000000000000000000002045043700000000000000000000278712500000000000000000000000002139341200000000000000000000278700000000000000000000000000001936571100000000000000000000278687500000000000000000000000001976215400000000000000000000278675000000000000000000000000002113449100000000000000000000278662500000000000000000000000001923256700000000000000000000278650000000000000000000000000002049849900000000000000000000278637500000000000000000000000002112981300000000000000000000278625000000000000000000000000001939220800000000000000000000278612500000000000000000000000002031916100000000000000000000278600000000000000000000,
    2094105200000000000000000000280187500000000000000000000000001988836900000000000000000000280175000000000000000000000000002197162800000000000000000000280162500000000000000000000000002097197300000000000000000000280150000000000000000000000000002024740000000000000000000000280137500000000000000000000000002098404500000000000000000000280125000000000000000000000000002110802600000000000000000000280112500000000000000000000000002107315500000000000000000000280100000000000000000000000000001989137400000000000000000000280087500000000000000000000000002087772800000000000000000000280075000000000000000000000000002175117800000000000000000000280062500000000000000000000000002080222600000000000000000000280050000000000000000000000000002187476600000000000000000000280037500000000000000000000000002160309800000000000000000000280025000000000000000000000000002032169400000000000000000000280012500000000000000000000000002007306900000000000000000000280000000000000000000000000000002117678400000000000000000000279987500000000000000000000000002030321500000000000000000000279975000000000000000000000000002008903800000000000000000000279962500000000000000000000000002147077200000000000000000000279950000000000000000000000000002197599900000000000000000000279937500000000000000000000000002016808100000000000000000000279925000000000000000000000000001958153800000000000000000000279912500000000000000000000000002123497500000000000000000000279900000000000000000000000000002178463200000000000000000000279887500000000000000000000000002143043400000000000000000000279875000000000000000000000000002208975500000000000000000000279862500000000000000000000000002027969000000000000000000000279850000000000000000000000000001942755000000000000000000000279837500000000000000000000000001984462700000000000000000000279825000000000000000000000000002186501000000000000000000000279812500000000000000000000000001932432700000000000000000000279800000000000000000000000000001964510900000000000000000000279787500000000000000000000000002082196600000000000000000000279775000000000000000000000000002024115600000000000000000000279762500000000000000000000000002007075600000000000000000000279750000000000000000000000000002067160400000000000000000000279737500000000000000000000000001910216100000000000000000000279725000000000000000000000000002076379200000000000000000000279712500000000000000000000000002028737700000000000000000000279700000000000000000000000000002122911800000000000000000000279687500000000000000000000000002158889600000000000000000000279675000000000000000000000000002054088600000000000000000000279662500000000000000000000000002031841300000000000000000000279650000000000000000000000000002049813900000000000000000000279637500000000000000000000000002094643800000000000000000000279625000000000000000000000000002078244500000000000000000000279612500000000000000000000000002104376400000000000000000000279600000000000000000000000000002009022800000000000000000000279587500000000000000000000000002218838300000000000000000000279575000000000000000000000000002144531100000000000000000000279562500000000000000000000000002080320500000000000000000000279550000000000000000000000000002216342000000000000000000000279537500000000000000000000000002081775400000000000000000000279525000000000000000000000000002002728400000000000000000000279512500000000000000000000000002025516500000000000000000000279500000000000000000000000000002026110500000000000000000000279487500000000000000000000000002086193900000000000000000000279475000000000000000000000000002201738600000000000000000000279462500000000000000000000000002029143900000000000000000000279450000000000000000000000000001910185800000000000000000000279437500000000000000000000000002019949900000000000000000000279425000000000000000000000000002005210400000000000000000000279412500000000000000000000000002099417600000000000000000000279400000000000000000000,
    2161127000000000000000000000280987500000000000000000000000002200407800000000000000000000280975000000000000000000000000002081374300000000000000000000280962500000000000000000000000002179902000000000000000000000280950000000000000000000000000002099268200000000000000000000280937500000000000000000000000001964797700000000000000000000280925000000000000000000000000002113942300000000000000000000280912500000000000000000000000002383870500000000000000000000280900000000000000000000000000002411845100000000000000000000280887500000000000000000000000002073683600000000000000000000280875000000000000000000000000002017666800000000000000000000280862500000000000000000000000002002181500000000000000000000280850000000000000000000000000002087649800000000000000000000280837500000000000000000000000002245580400000000000000000000280825000000000000000000000000002076631600000000000000000000280812500000000000000000000000002206990400000000000000000000280800000000000000000000000000002332274700000000000000000000280787500000000000000000000000002225817400000000000000000000280775000000000000000000000000001959595700000000000000000000280762500000000000000000000000001875572700000000000000000000280750000000000000000000000000002049126800000000000000000000280737500000000000000000000000001995464500000000000000000000280725000000000000000000000000001952985300000000000000000000280712500000000000000000000000001958940300000000000000000000280700000000000000000000000000001967289700000000000000000000280687500000000000000000000000001912942000000000000000000000280675000000000000000000000000001961502800000000000000000000280662500000000000000000000000002135784300000000000000000000280650000000000000000000000000002042845000000000000000000000280637500000000000000000000000002059729600000000000000000000280625000000000000000000000000002157242000000000000000000000280612500000000000000000000000002020950100000000000000000000280600000000000000000000000000002171077900000000000000000000280587500000000000000000000000002243046700000000000000000000280575000000000000000000000000002235632200000000000000000000280562500000000000000000000000002186204000000000000000000000280550000000000000000000000000002350977400000000000000000000280537500000000000000000000000002075223700000000000000000000280525000000000000000000000000002086170800000000000000000000280512500000000000000000000000002215200600000000000000000000280500000000000000000000000000002246433600000000000000000000280487500000000000000000000000002365575200000000000000000000280475000000000000000000000000001929162500000000000000000000280462500000000000000000000000002042516500000000000000000000280450000000000000000000000000002036503900000000000000000000280437500000000000000000000000002004112400000000000000000000280425000000000000000000000000002039698600000000000000000000280412500000000000000000000000001974857900000000000000000000280400000000000000000000000000002080865700000000000000000000280387500000000000000000000000002068978200000000000000000000280375000000000000000000000000002096425400000000000000000000280362500000000000000000000000002292340900000000000000000000280350000000000000000000000000002028008500000000000000000000280337500000000000000000000000001922754200000000000000000000280325000000000000000000000000001853636400000000000000000000280312500000000000000000000000001876096000000000000000000000280300000000000000000000000000002000941400000000000000000000280287500000000000000000000000002046550600000000000000000000280275000000000000000000000000002011852100000000000000000000280262500000000000000000000000002106666400000000000000000000280250000000000000000000000000002095659200000000000000000000280237500000000000000000000000002061345000000000000000000000280225000000000000000000000000002122450000000000000000000000280212500000000000000000000000002074815800000000000000000000280200000000000000000000,
    2075278000000000000000000000281787500000000000000000000000002099541500000000000000000000281775000000000000000000000000002202249300000000000000000000281762500000000000000000000000002264804400000000000000000000281750000000000000000000000000002204154500000000000000000000281737500000000000000000000000002067750200000000000000000000281725000000000000000000000000001965017400000000000000000000281712500000000000000000000000002076389400000000000000000000281700000000000000000000000000002189901400000000000000000000281687500000000000000000000000002082527900000000000000000000281675000000000000000000000000001925190700000000000000000000281662500000000000000000000000002040220400000000000000000000281650000000000000000000000000002113498500000000000000000000281637500000000000000000000000002102195300000000000000000000281625000000000000000000000000002080245500000000000000000000281612500000000000000000000000002153835400000000000000000000281600000000000000000000000000002357512900000000000000000000281587500000000000000000000000002081660100000000000000000000281575000000000000000000000000002010349400000000000000000000281562500000000000000000000000002106651500000000000000000000281550000000000000000000000000002227805900000000000000000000281537500000000000000000000000002158611300000000000000000000281525000000000000000000000000002093331900000000000000000000281512500000000000000000000000001952563000000000000000000000281500000000000000000000000000001949680100000000000000000000281487500000000000000000000000001990388500000000000000000000281475000000000000000000000000002154496000000000000000000000281462500000000000000000000000002203903900000000000000000000281450000000000000000000000000002176516800000000000000000000281437500000000000000000000000002192699800000000000000000000281425000000000000000000000000002361336600000000000000000000281412500000000000000000000000002226998800000000000000000000281400000000000000000000000000002074765900000000000000000000281387500000000000000000000000002102143600000000000000000000281375000000000000000000000000002118219900000000000000000000281362500000000000000000000000002137147700000000000000000000281350000000000000000000000000002226055200000000000000000000281337500000000000000000000000002109985200000000000000000000281325000000000000000000000000002011811000000000000000000000281312500000000000000000000000001908512700000000000000000000281300000000000000000000000000002163613100000000000000000000281287500000000000000000000000002205236900000000000000000000281275000000000000000000000000001996651700000000000000000000281262500000000000000000000000002009907800000000000000000000281250000000000000000000000000002112763700000000000000000000281237500000000000000000000000002072841200000000000000000000281225000000000000000000000000002132417400000000000000000000281212500000000000000000000000002167641000000000000000000000281200000000000000000000000000002143825200000000000000000000281187500000000000000000000000002243391600000000000000000000281175000000000000000000000000002186839300000000000000000000281162500000000000000000000000002066340000000000000000000000281150000000000000000000000000002037189000000000000000000000281137500000000000000000000000002189719900000000000000000000281125000000000000000000000000002076234000000000000000000000281112500000000000000000000000002060049800000000000000000000281100000000000000000000000000002141582000000000000000000000281087500000000000000000000000002210048100000000000000000000281075000000000000000000000000001994965600000000000000000000281062500000000000000000000000002118767400000000000000000000281050000000000000000000000000002176975600000000000000000000281037500000000000000000000000002073443400000000000000000000281025000000000000000000000000002078858100000000000000000000281012500000000000000000000000002257460100000000000000000000281000000000000000000000,
    2013955800000000000000000000282587500000000000000000000000002231347300000000000000000000282575000000000000000000000000002142876500000000000000000000282562500000000000000000000000001971695200000000000000000000282550000000000000000000000000002223079400000000000000000000282537500000000000000000000000002293988500000000000000000000282525000000000000000000000000002238482300000000000000000000282512500000000000000000000000002128607700000000000000000000282500000000000000000000000000002103472700000000000000000000282487500000000000000000000000001945606400000000000000000000282475000000000000000000000000002161887100000000000000000000282462500000000000000000000000002132293500000000000000000000282450000000000000000000000000002199342100000000000000000000282437500000000000000000000000002137308100000000000000000000282425000000000000000000000000002274481300000000000000000000282412500000000000000000000000002154256900000000000000000000282400000000000000000000000000001988132900000000000000000000282387500000000000000000000000002045535000000000000000000000282375000000000000000000000000002223283600000000000000000000282362500000000000000000000000002298509400000000000000000000282350000000000000000000000000002128305800000000000000000000282337500000000000000000000000002207592100000000000000000000282325000000000000000000000000002267753200000000000000000000282312500000000000000000000000002256201000000000000000000000282300000000000000000000000000002208467900000000000000000000282287500000000000000000000000002064827500000000000000000000282275000000000000000000000000002221971500000000000000000000282262500000000000000000000000002133927000000000000000000000282250000000000000000000000000001926040300000000000000000000282237500000000000000000000000002029197700000000000000000000282225000000000000000000000000002167132700000000000000000000282212500000000000000000000000002027152900000000000000000000282200000000000000000000000000002212972700000000000000000000282187500000000000000000000000002169679800000000000000000000282175000000000000000000000000001871125900000000000000000000282162500000000000000000000000001891967700000000000000000000282150000000000000000000000000002006058600000000000000000000282137500000000000000000000000002218252000000000000000000000282125000000000000000000000000002223147200000000000000000000282112500000000000000000000000002110338900000000000000000000282100000000000000000000000000002163640500000000000000000000282087500000000000000000000000002022340700000000000000000000282075000000000000000000000000001935320300000000000000000000282062500000000000000000000000001986455400000000000000000000282050000000000000000000000000002154489200000000000000000000282037500000000000000000000000002282981900000000000000000000282025000000000000000000000000002363727800000000000000000000282012500000000000000000000000002367095300000000000000000000282000000000000000000000000000002213865600000000000000000000281987500000000000000000000000002310450100000000000000000000281975000000000000000000000000002331457000000000000000000000281962500000000000000000000000002300722600000000000000000000281950000000000000000000000000002240185900000000000000000000281937500000000000000000000000002306609100000000000000000000281925000000000000000000000000002254926500000000000000000000281912500000000000000000000000001992356800000000000000000000281900000000000000000000000000002100548000000000000000000000281887500000000000000000000000002048645900000000000000000000281875000000000000000000000000002166474900000000000000000000281862500000000000000000000000002350119100000000000000000000281850000000000000000000000000002115614700000000000000000000281837500000000000000000000000002030052500000000000000000000281825000000000000000000000000002086281600000000000000000000281812500000000000000000000000002109933000000000000000000000281800000000000000000000,
    2207549400000000000000000000283387500000000000000000000000002316591700000000000000000000283375000000000000000000000000002273493100000000000000000000283362500000000000000000000000002148748000000000000000000000283350000000000000000000000000002180042000000000000000000000283337500000000000000000000000002152622100000000000000000000283325000000000000000000000000002075300500000000000000000000283312500000000000000000000000001971764300000000000000000000283300000000000000000000000000001981260200000000000000000000283287500000000000000000000000002023359500000000000000000000283275000000000000000000000000002128230400000000000000000000283262500000000000000000000000002078982200000000000000000000283250000000000000000000000000002031834500000000000000000000283237500000000000000000000000001978108700000000000000000000283225000000000000000000000000002108284300000000000000000000283212500000000000000000000000002297295200000000000000000000283200000000000000000000000000002184269200000000000000000000283187500000000000000000000000002121398500000000000000000000283175000000000000000000000000002102861500000000000000000000283162500000000000000000000000002057963200000000000000000000283150000000000000000000000000002108184300000000000000000000283137500000000000000000000000002083550600000000000000000000283125000000000000000000000000002306371600000000000000000000283112500000000000000000000000002303744300000000000000000000283100000000000000000000000000002255159200000000000000000000283087500000000000000000000000002085653800000000000000000000283075000000000000000000000000002105666200000000000000000000283062500000000000000000000000002202112500000000000000000000283050000000000000000000000000002148010700000000000000000000283037500000000000000000000000002100327400000000000000000000283025000000000000000000000000002212679600000000000000000000283012500000000000000000000000002222095800000000000000000000283000000000000000000000000000002195716400000000000000000000282987500000000000000000000000002142779600000000000000000000282975000000000000000000000000002179803700000000000000000000282962500000000000000000000000002139621400000000000000000000282950000000000000000000000000002161425100000000000000000000282937500000000000000000000000002006694800000000000000000000282925000000000000000000000000002082918200000000000000000000282912500000000000000000000000001977370400000000000000000000282900000000000000000000000000002058725600000000000000000000282887500000000000000000000000002065078200000000000000000000282875000000000000000000000000002139534200000000000000000000282862500000000000000000000000002340852500000000000000000000282850000000000000000000000000002125609100000000000000000000282837500000000000000000000000002056397300000000000000000000282825000000000000000000000000002020833100000000000000000000282812500000000000000000000000001919283400000000000000000000282800000000000000000000000000001995082500000000000000000000282787500000000000000000000000002011076800000000000000000000282775000000000000000000000000002102219300000000000000000000282762500000000000000000000000002174817500000000000000000000282750000000000000000000000000002125094100000000000000000000282737500000000000000000000000002031199400000000000000000000282725000000000000000000000000001974432200000000000000000000282712500000000000000000000000002115638100000000000000000000282700000000000000000000000000002164262900000000000000000000282687500000000000000000000000002176905200000000000000000000282675000000000000000000000000002094631400000000000000000000282662500000000000000000000000001818269500000000000000000000282650000000000000000000000000001973781900000000000000000000282637500000000000000000000000001982656700000000000000000000282625000000000000000000000000002005125700000000000000000000282612500000000000000000000000001995537100000000000000000000282600000000000000000000,
    2002415900000000000000000000284187500000000000000000000000002000663900000000000000000000284175000000000000000000000000001987312500000000000000000000284162500000000000000000000000002041107500000000000000000000284150000000000000000000000000002126144300000000000000000000284137500000000000000000000000002132067000000000000000000000284125000000000000000000000000002201197000000000000000000000284112500000000000000000000000002094830800000000000000000000284100000000000000000000000000002162274700000000000000000000284087500000000000000000000000002270366600000000000000000000284075000000000000000000000000002252759000000000000000000000284062500000000000000000000000002237084300000000000000000000284050000000000000000000000000002065010200000000000000000000284037500000000000000000000000002132111100000000000000000000284025000000000000000000000000002174961000000000000000000000284012500000000000000000000000002028116300000000000000000000284000000000000000000000000000002185803400000000000000000000283987500000000000000000000000002198101100000000000000000000283975000000000000000000000000002223733400000000000000000000283962500000000000000000000000002188309800000000000000000000283950000000000000000000000000001894271800000000000000000000283937500000000000000000000000002141003000000000000000000000283925000000000000000000000000002110138500000000000000000000283912500000000000000000000000002109375900000000000000000000283900000000000000000000000000002180345100000000000000000000283887500000000000000000000000002434337500000000000000000000283875000000000000000000000000002420039900000000000000000000283862500000000000000000000000002251118600000000000000000000283850000000000000000000000000002198398600000000000000000000283837500000000000000000000000002200989300000000000000000000283825000000000000000000000000002267535300000000000000000000283812500000000000000000000000002249914900000000000000000000283800000000000000000000000000002187397700000000000000000000283787500000000000000000000000001997972100000000000000000000283775000000000000000000000000001984182700000000000000000000283762500000000000000000000000002089452700000000000000000000283750000000000000000000000000001912411500000000000000000000283737500000000000000000000000002054760700000000000000000000283725000000000000000000000000001981996000000000000000000000283712500000000000000000000000001887190000000000000000000000283700000000000000000000000000001836861400000000000000000000283687500000000000000000000000002076076800000000000000000000283675000000000000000000000000002132864500000000000000000000283662500000000000000000000000002172779300000000000000000000283650000000000000000000000000002202192900000000000000000000283637500000000000000000000000002127309800000000000000000000283625000000000000000000000000002095371300000000000000000000283612500000000000000000000000002096057300000000000000000000283600000000000000000000000000001907038900000000000000000000283587500000000000000000000000002122572500000000000000000000283575000000000000000000000000002182491500000000000000000000283562500000000000000000000000002081739300000000000000000000283550000000000000000000000000002227001200000000000000000000283537500000000000000000000000002083370400000000000000000000283525000000000000000000000000002049216200000000000000000000283512500000000000000000000000002248333000000000000000000000283500000000000000000000000000002169325100000000000000000000283487500000000000000000000000002143755300000000000000000000283475000000000000000000000000002156420000000000000000000000283462500000000000000000000000002130320100000000000000000000283450000000000000000000000000001973880800000000000000000000283437500000000000000000000000001910754900000000000000000000283425000000000000000000000000001979897100000000000000000000283412500000000000000000000000002139306700000000000000000000283400000000000000000000,
    2061705800000000000000000000284987500000000000000000000000002056487300000000000000000000284975000000000000000000000000002306625700000000000000000000284962500000000000000000000000002157069700000000000000000000284950000000000000000000000000002014314700000000000000000000284937500000000000000000000000002024522100000000000000000000284925000000000000000000000000002086131900000000000000000000284912500000000000000000000000002651343300000000000000000000284900000000000000000000000000008131680000000000000000000000284887500000000000000000000000008053903100000000000000000000284875000000000000000000000000002698917100000000000000000000284862500000000000000000000000002254008500000000000000000000284850000000000000000000000000002203812600000000000000000000284837500000000000000000000000002069106400000000000000000000284825000000000000000000000000002090812700000000000000000000284812500000000000000000000000002011332500000000000000000000284800000000000000000000000000001925022100000000000000000000284787500000000000000000000000003295073900000000000000000000284775000000000000000000000000003479528500000000000000000000284762500000000000000000000000002045751400000000000000000000284750000000000000000000000000001881575500000000000000000000284737500000000000000000000000002108494000000000000000000000284725000000000000000000000000002439611700000000000000000000284712500000000000000000000000002399890600000000000000000000284700000000000000000000000000002239622900000000000000000000284687500000000000000000000000002157159200000000000000000000284675000000000000000000000000002234439400000000000000000000284662500000000000000000000000002248176100000000000000000000284650000000000000000000000000002130279100000000000000000000284637500000000000000000000000002047489600000000000000000000284625000000000000000000000000002169341100000000000000000000284612500000000000000000000000002124851500000000000000000000284600000000000000000000000000001960688900000000000000000000284587500000000000000000000000001995171700000000000000000000284575000000000000000000000000002016566700000000000000000000284562500000000000000000000000001957259800000000000000000000284550000000000000000000000000001964220200000000000000000000284537500000000000000000000000002073617100000000000000000000284525000000000000000000000000002103917200000000000000000000284512500000000000000000000000002199164200000000000000000000284500000000000000000000000000002311799600000000000000000000284487500000000000000000000000002285962800000000000000000000284475000000000000000000000000002293587600000000000000000000284462500000000000000000000000002191517300000000000000000000284450000000000000000000000000002075867200000000000000000000284437500000000000000000000000002084664600000000000000000000284425000000000000000000000000002262924500000000000000000000284412500000000000000000000000002180135800000000000000000000284400000000000000000000000000001920153800000000000000000000284387500000000000000000000000002076404100000000000000000000284375000000000000000000000000002091569400000000000000000000284362500000000000000000000000002081880800000000000000000000284350000000000000000000000000002090786000000000000000000000284337500000000000000000000000002038154300000000000000000000284325000000000000000000000000002074225000000000000000000000284312500000000000000000000000002070187500000000000000000000284300000000000000000000000000002102775300000000000000000000284287500000000000000000000000002120142000000000000000000000284275000000000000000000000000002132802000000000000000000000284262500000000000000000000000002067232700000000000000000000284250000000000000000000000000001899218300000000000000000000284237500000000000000000000000002081233700000000000000000000284225000000000000000000000000002296504200000000000000000000284212500000000000000000000000002167700100000000000000000000284200000000000000000000,
    2099749300000000000000000000285787500000000000000000000000002151199300000000000000000000285775000000000000000000000000002116299600000000000000000000285762500000000000000000000000002256492900000000000000000000285750000000000000000000000000002178023800000000000000000000285737500000000000000000000000002173465700000000000000000000285725000000000000000000000000002105184400000000000000000000285712500000000000000000000000002087926600000000000000000000285700000000000000000000000000002151950200000000000000000000285687500000000000000000000000002126574000000000000000000000285675000000000000000000000000002160044800000000000000000000285662500000000000000000000000001983353400000000000000000000285650000000000000000000000000002040057800000000000000000000285637500000000000000000000000002071017400000000000000000000285625000000000000000000000000002097497000000000000000000000285612500000000000000000000000002039144600000000000000000000285600000000000000000000000000001933632000000000000000000000285587500000000000000000000000002199760600000000000000000000285575000000000000000000000000002079508300000000000000000000285562500000000000000000000000001978691700000000000000000000285550000000000000000000000000002111114700000000000000000000285537500000000000000000000000002222314700000000000000000000285525000000000000000000000000002244293300000000000000000000285512500000000000000000000000002239796200000000000000000000285500000000000000000000000000002229250800000000000000000000285487500000000000000000000000002246475000000000000000000000285475000000000000000000000000002215108000000000000000000000285462500000000000000000000000002257903700000000000000000000285450000000000000000000000000002215588400000000000000000000285437500000000000000000000000002222282200000000000000000000285425000000000000000000000000002204643600000000000000000000285412500000000000000000000000002125113800000000000000000000285400000000000000000000000000002036177700000000000000000000285387500000000000000000000000002138663000000000000000000000285375000000000000000000000000002046806900000000000000000000285362500000000000000000000000002233330000000000000000000000285350000000000000000000000000002254024600000000000000000000285337500000000000000000000000002018333200000000000000000000285325000000000000000000000000002077779100000000000000000000285312500000000000000000000000002213020700000000000000000000285300000000000000000000000000002188335700000000000000000000285287500000000000000000000000002272777300000000000000000000285275000000000000000000000000002144628000000000000000000000285262500000000000000000000000001935920000000000000000000000285250000000000000000000000000001935683000000000000000000000285237500000000000000000000000002014984900000000000000000000285225000000000000000000000000002000082700000000000000000000285212500000000000000000000000001931128600000000000000000000285200000000000000000000000000001982848600000000000000000000285187500000000000000000000000002072181800000000000000000000285175000000000000000000000000002173547100000000000000000000285162500000000000000000000000002367683400000000000000000000285150000000000000000000000000002220822700000000000000000000285137500000000000000000000000002030512700000000000000000000285125000000000000000000000000002144921500000000000000000000285112500000000000000000000000002117842200000000000000000000285100000000000000000000000000002322413000000000000000000000285087500000000000000000000000002361400000000000000000000000285075000000000000000000000000002123968100000000000000000000285062500000000000000000000000002097950200000000000000000000285050000000000000000000000000002078954100000000000000000000285037500000000000000000000000001920212100000000000000000000285025000000000000000000000000002102942200000000000000000000285012500000000000000000000000001987998300000000000000000000285000000000000000000000,
    2049070800000000000000000000286587500000000000000000000000001941475200000000000000000000286575000000000000000000000000002131920400000000000000000000286562500000000000000000000000002257805300000000000000000000286550000000000000000000000000002181912200000000000000000000286537500000000000000000000000002253464800000000000000000000286525000000000000000000000000002417827900000000000000000000286512500000000000000000000000002360000900000000000000000000286500000000000000000000000000002271304600000000000000000000286487500000000000000000000000002238933400000000000000000000286475000000000000000000000000002071887800000000000000000000286462500000000000000000000000002138866100000000000000000000286450000000000000000000000000002216943200000000000000000000286437500000000000000000000000002025171500000000000000000000286425000000000000000000000000002012195900000000000000000000286412500000000000000000000000002169845900000000000000000000286400000000000000000000000000002357606400000000000000000000286387500000000000000000000000002184473300000000000000000000286375000000000000000000000000002195646200000000000000000000286362500000000000000000000000002173079400000000000000000000286350000000000000000000000000002225977900000000000000000000286337500000000000000000000000003465599500000000000000000000286325000000000000000000000000003121078600000000000000000000286312500000000000000000000000002136886800000000000000000000286300000000000000000000000000004617328700000000000000000000286287500000000000000000000000005668787900000000000000000000286275000000000000000000000000002605536700000000000000000000286262500000000000000000000000002116816700000000000000000000286250000000000000000000000000002132341900000000000000000000286237500000000000000000000000002179867900000000000000000000286225000000000000000000000000002110510400000000000000000000286212500000000000000000000000002108335400000000000000000000286200000000000000000000000000002186831700000000000000000000286187500000000000000000000000002154162800000000000000000000286175000000000000000000000000002088943800000000000000000000286162500000000000000000000000002113541600000000000000000000286150000000000000000000000000002086979600000000000000000000286137500000000000000000000000001963538500000000000000000000286125000000000000000000000000002101934000000000000000000000286112500000000000000000000000002221797900000000000000000000286100000000000000000000000000002126948100000000000000000000286087500000000000000000000000002082002200000000000000000000286075000000000000000000000000002151718500000000000000000000286062500000000000000000000000001934673100000000000000000000286050000000000000000000000000002112385000000000000000000000286037500000000000000000000000002240231000000000000000000000286025000000000000000000000000002163768600000000000000000000286012500000000000000000000000002213667600000000000000000000286000000000000000000000000000002102091800000000000000000000285987500000000000000000000000002035111300000000000000000000285975000000000000000000000000002267331300000000000000000000285962500000000000000000000000002192012400000000000000000000285950000000000000000000000000002111630400000000000000000000285937500000000000000000000000002277868800000000000000000000285925000000000000000000000000002238745200000000000000000000285912500000000000000000000000002220226600000000000000000000285900000000000000000000000000002355014100000000000000000000285887500000000000000000000000002055027000000000000000000000285875000000000000000000000000001985583600000000000000000000285862500000000000000000000000002175066800000000000000000000285850000000000000000000000000002280514200000000000000000000285837500000000000000000000000001994172600000000000000000000285825000000000000000000000000001938768500000000000000000000285812500000000000000000000000002063706000000000000000000000285800000000000000000000,
    2279582100000000000000000000287387500000000000000000000000002165210200000000000000000000287375000000000000000000000000002154604900000000000000000000287362500000000000000000000000002127973500000000000000000000287350000000000000000000000000001951667400000000000000000000287337500000000000000000000000002144475000000000000000000000287325000000000000000000000000002124961100000000000000000000287312500000000000000000000000001959519300000000000000000000287300000000000000000000000000002184767800000000000000000000287287500000000000000000000000002275824400000000000000000000287275000000000000000000000000002191613100000000000000000000287262500000000000000000000000002289406300000000000000000000287250000000000000000000000000002274028900000000000000000000287237500000000000000000000000002289569200000000000000000000287225000000000000000000000000001947075200000000000000000000287212500000000000000000000000002061320300000000000000000000287200000000000000000000000000002187092400000000000000000000287187500000000000000000000000002267938300000000000000000000287175000000000000000000000000002244297900000000000000000000287162500000000000000000000000002300729700000000000000000000287150000000000000000000000000002183256000000000000000000000287137500000000000000000000000002051507900000000000000000000287125000000000000000000000000002283024700000000000000000000287112500000000000000000000000002457224200000000000000000000287100000000000000000000000000002366225700000000000000000000287087500000000000000000000000002071277300000000000000000000287075000000000000000000000000002036636100000000000000000000287062500000000000000000000000002244793700000000000000000000287050000000000000000000000000002216939800000000000000000000287037500000000000000000000000002018087300000000000000000000287025000000000000000000000000002115179800000000000000000000287012500000000000000000000000002200672200000000000000000000287000000000000000000000000000002195310900000000000000000000286987500000000000000000000000002020693900000000000000000000286975000000000000000000000000002082929000000000000000000000286962500000000000000000000000002105900000000000000000000000286950000000000000000000000000002258894100000000000000000000286937500000000000000000000000002325564700000000000000000000286925000000000000000000000000002056530600000000000000000000286912500000000000000000000000002111475300000000000000000000286900000000000000000000000000002175320900000000000000000000286887500000000000000000000000002125367800000000000000000000286875000000000000000000000000002244489000000000000000000000286862500000000000000000000000002267847000000000000000000000286850000000000000000000000000002167307200000000000000000000286837500000000000000000000000002283398500000000000000000000286825000000000000000000000000002238778300000000000000000000286812500000000000000000000000002192409700000000000000000000286800000000000000000000000000002280461200000000000000000000286787500000000000000000000000002148732700000000000000000000286775000000000000000000000000002026609700000000000000000000286762500000000000000000000000002138767100000000000000000000286750000000000000000000000000002184077400000000000000000000286737500000000000000000000000006719947200000000000000000000286725000000000000000000000000009954628800000000000000000000286712500000000000000000000000004166661100000000000000000000286700000000000000000000000000002076922600000000000000000000286687500000000000000000000000004720215800000000000000000000286675000000000000000000000000008995054400000000000000000000286662500000000000000000000000005020146800000000000000000000286650000000000000000000000000002222505600000000000000000000286637500000000000000000000000002283193100000000000000000000286625000000000000000000000000002217000600000000000000000000286612500000000000000000000000002166666200000000000000000000286600000000000000000000,
    2111259900000000000000000000288187500000000000000000000000002202756900000000000000000000288175000000000000000000000000002780551700000000000000000000288162500000000000000000000000002406433300000000000000000000288150000000000000000000000000002219304600000000000000000000288137500000000000000000000000002456072700000000000000000000288125000000000000000000000000002253005400000000000000000000288112500000000000000000000000004235727600000000000000000000288100000000000000000000000000005774200500000000000000000000288087500000000000000000000000002933139600000000000000000000288075000000000000000000000000002267862100000000000000000000288062500000000000000000000000002065841400000000000000000000288050000000000000000000000000002077561800000000000000000000288037500000000000000000000000003158109500000000000000000000288025000000000000000000000000003265764300000000000000000000288012500000000000000000000000002247252300000000000000000000288000000000000000000000000000002312170700000000000000000000287987500000000000000000000000002245470400000000000000000000287975000000000000000000000000002149555200000000000000000000287962500000000000000000000000002104155500000000000000000000287950000000000000000000000000002158701800000000000000000000287937500000000000000000000000002129230400000000000000000000287925000000000000000000000000002021020500000000000000000000287912500000000000000000000000001884051900000000000000000000287900000000000000000000000000002047392500000000000000000000287887500000000000000000000000002004865800000000000000000000287875000000000000000000000000001970878700000000000000000000287862500000000000000000000000002085621000000000000000000000287850000000000000000000000000002074536800000000000000000000287837500000000000000000000000002078897500000000000000000000287825000000000000000000000000002127323200000000000000000000287812500000000000000000000000002081937100000000000000000000287800000000000000000000000000002134558200000000000000000000287787500000000000000000000000002199690500000000000000000000287775000000000000000000000000002551540400000000000000000000287762500000000000000000000000002727146900000000000000000000287750000000000000000000000000002187108200000000000000000000287737500000000000000000000000005058525000000000000000000000287725000000000000000000000000009424836200000000000000000000287712500000000000000000000000005140237100000000000000000000287700000000000000000000000000002093536100000000000000000000287687500000000000000000000000002155489900000000000000000000287675000000000000000000000000002040880400000000000000000000287662500000000000000000000000002044171000000000000000000000287650000000000000000000000000002149217100000000000000000000287637500000000000000000000000002199931300000000000000000000287625000000000000000000000000002332091600000000000000000000287612500000000000000000000000002443439900000000000000000000287600000000000000000000000000003103364700000000000000000000287587500000000000000000000000002559511500000000000000000000287575000000000000000000000000002390601800000000000000000000287562500000000000000000000000002295255400000000000000000000287550000000000000000000000000002112625000000000000000000000287537500000000000000000000000002126720100000000000000000000287525000000000000000000000000002372185000000000000000000000287512500000000000000000000000002368306200000000000000000000287500000000000000000000000000002143629200000000000000000000287487500000000000000000000000002043272600000000000000000000287475000000000000000000000000002105188200000000000000000000287462500000000000000000000000002304850300000000000000000000287450000000000000000000000000002821731400000000000000000000287437500000000000000000000000002959844700000000000000000000287425000000000000000000000000002187161000000000000000000000287412500000000000000000000000002240664000000000000000000000287400000000000000000000,
    2155182200000000000000000000288987500000000000000000000000002249845800000000000000000000288975000000000000000000000000002242783600000000000000000000288962500000000000000000000000002218792200000000000000000000288950000000000000000000000000002149013100000000000000000000288937500000000000000000000000002185149900000000000000000000288925000000000000000000000000002189546700000000000000000000288912500000000000000000000000002148614100000000000000000000288900000000000000000000000000002151637600000000000000000000288887500000000000000000000000002002593500000000000000000000288875000000000000000000000000002144703500000000000000000000288862500000000000000000000000002260820200000000000000000000288850000000000000000000000000002167324400000000000000000000288837500000000000000000000000002191958600000000000000000000288825000000000000000000000000002244083700000000000000000000288812500000000000000000000000002304594200000000000000000000288800000000000000000000000000002326761300000000000000000000288787500000000000000000000000002221858900000000000000000000288775000000000000000000000000002065791100000000000000000000288762500000000000000000000000002073228100000000000000000000288750000000000000000000000000002152251600000000000000000000288737500000000000000000000000002186760900000000000000000000288725000000000000000000000000002105489600000000000000000000288712500000000000000000000000002224166600000000000000000000288700000000000000000000000000002315846700000000000000000000288687500000000000000000000000002556825700000000000000000000288675000000000000000000000000008082350000000000000000000000288662500000000000000000000000008991629600000000000000000000288650000000000000000000000000002996428700000000000000000000288637500000000000000000000000002041308700000000000000000000288625000000000000000000000000002224181100000000000000000000288612500000000000000000000000002382579800000000000000000000288600000000000000000000000000002292986100000000000000000000288587500000000000000000000000002128941600000000000000000000288575000000000000000000000000002219975500000000000000000000288562500000000000000000000000002310108600000000000000000000288550000000000000000000000000002117596100000000000000000000288537500000000000000000000000002360298400000000000000000000288525000000000000000000000000002251020700000000000000000000288512500000000000000000000000002196578600000000000000000000288500000000000000000000000000002656165600000000000000000000288487500000000000000000000000010862931000000000000000000000288475000000000000000000000000013737971000000000000000000000288462500000000000000000000000004540576700000000000000000000288450000000000000000000000000002251220800000000000000000000288437500000000000000000000000002495588000000000000000000000288425000000000000000000000000004915156700000000000000000000288412500000000000000000000000007046811700000000000000000000288400000000000000000000000000003541001200000000000000000000288387500000000000000000000000002132810300000000000000000000288375000000000000000000000000002042466400000000000000000000288362500000000000000000000000002097406100000000000000000000288350000000000000000000000000002178333200000000000000000000288337500000000000000000000000002228989800000000000000000000288325000000000000000000000000002383104700000000000000000000288312500000000000000000000000002303859600000000000000000000288300000000000000000000000000005372752800000000000000000000288287500000000000000000000000009965110300000000000000000000288275000000000000000000000000005506195600000000000000000000288262500000000000000000000000002092402200000000000000000000288250000000000000000000000000002201227900000000000000000000288237500000000000000000000000002170226000000000000000000000288225000000000000000000000000002043891400000000000000000000288212500000000000000000000000002115937500000000000000000000288200000000000000000000,
    2212904300000000000000000000289787500000000000000000000000002240563800000000000000000000289775000000000000000000000000002286334500000000000000000000289762500000000000000000000000002361706200000000000000000000289750000000000000000000000000002271279300000000000000000000289737500000000000000000000000002195817500000000000000000000289725000000000000000000000000002221620600000000000000000000289712500000000000000000000000002131727000000000000000000000289700000000000000000000000000002131694600000000000000000000289687500000000000000000000000002289938000000000000000000000289675000000000000000000000000002171156900000000000000000000289662500000000000000000000000002168603700000000000000000000289650000000000000000000000000002166249800000000000000000000289637500000000000000000000000002164523900000000000000000000289625000000000000000000000000002063399600000000000000000000289612500000000000000000000000002198713300000000000000000000289600000000000000000000000000002234298400000000000000000000289587500000000000000000000000002143605700000000000000000000289575000000000000000000000000002009261100000000000000000000289562500000000000000000000000002245252700000000000000000000289550000000000000000000000000002436735400000000000000000000289537500000000000000000000000002283790300000000000000000000289525000000000000000000000000002324646100000000000000000000289512500000000000000000000000002173832000000000000000000000289500000000000000000000000000002083339100000000000000000000289487500000000000000000000000002111061000000000000000000000289475000000000000000000000000002094307700000000000000000000289462500000000000000000000000002176706700000000000000000000289450000000000000000000000000002241851300000000000000000000289437500000000000000000000000002132743800000000000000000000289425000000000000000000000000002031824100000000000000000000289412500000000000000000000000002120321500000000000000000000289400000000000000000000000000002165792400000000000000000000289387500000000000000000000000002122996200000000000000000000289375000000000000000000000000001982300100000000000000000000289362500000000000000000000000002037152300000000000000000000289350000000000000000000000000002287792900000000000000000000289337500000000000000000000000002298100000000000000000000000289325000000000000000000000000002327447400000000000000000000289312500000000000000000000000002177517400000000000000000000289300000000000000000000000000002109435500000000000000000000289287500000000000000000000000002000964200000000000000000000289275000000000000000000000000002013704700000000000000000000289262500000000000000000000000002085650400000000000000000000289250000000000000000000000000002149729200000000000000000000289237500000000000000000000000002308463600000000000000000000289225000000000000000000000000002373591700000000000000000000289212500000000000000000000000002311729400000000000000000000289200000000000000000000000000002284993100000000000000000000289187500000000000000000000000002194531700000000000000000000289175000000000000000000000000002150432100000000000000000000289162500000000000000000000000002346219300000000000000000000289150000000000000000000000000002257364800000000000000000000289137500000000000000000000000002105576300000000000000000000289125000000000000000000000000002252079300000000000000000000289112500000000000000000000000002191380100000000000000000000289100000000000000000000000000002098675200000000000000000000289087500000000000000000000000002208823100000000000000000000289075000000000000000000000000002280884600000000000000000000289062500000000000000000000000002163506100000000000000000000289050000000000000000000000000002177641000000000000000000000289037500000000000000000000000003195595700000000000000000000289025000000000000000000000000004639844800000000000000000000289012500000000000000000000000002803203600000000000000000000289000000000000000000000,
    2218300200000000000000000000290587500000000000000000000000002332822500000000000000000000290575000000000000000000000000002142226300000000000000000000290562500000000000000000000000002229399600000000000000000000290550000000000000000000000000002238800700000000000000000000290537500000000000000000000000002171187500000000000000000000290525000000000000000000000000002104132800000000000000000000290512500000000000000000000000002130742600000000000000000000290500000000000000000000000000002169242300000000000000000000290487500000000000000000000000002192676200000000000000000000290475000000000000000000000000002240652100000000000000000000290462500000000000000000000000002211776900000000000000000000290450000000000000000000000000002333508100000000000000000000290437500000000000000000000000002024986200000000000000000000290425000000000000000000000000002046715700000000000000000000290412500000000000000000000000002213658600000000000000000000290400000000000000000000000000002009016500000000000000000000290387500000000000000000000000002264679300000000000000000000290375000000000000000000000000004045375700000000000000000000290362500000000000000000000000004392187700000000000000000000290350000000000000000000000000002144900400000000000000000000290337500000000000000000000000002168695400000000000000000000290325000000000000000000000000002266778500000000000000000000290312500000000000000000000000002170740300000000000000000000290300000000000000000000000000003627587700000000000000000000290287500000000000000000000000007285107900000000000000000000290275000000000000000000000000004780736400000000000000000000290262500000000000000000000000002203095600000000000000000000290250000000000000000000000000002211601100000000000000000000290237500000000000000000000000002287411900000000000000000000290225000000000000000000000000002195464100000000000000000000290212500000000000000000000000002030330000000000000000000000290200000000000000000000000000002127870700000000000000000000290187500000000000000000000000002052694700000000000000000000290175000000000000000000000000002152933100000000000000000000290162500000000000000000000000002232885400000000000000000000290150000000000000000000000000002090898100000000000000000000290137500000000000000000000000001956683700000000000000000000290125000000000000000000000000001941497000000000000000000000290112500000000000000000000000002142789000000000000000000000290100000000000000000000000000002111416300000000000000000000290087500000000000000000000000001945675100000000000000000000290075000000000000000000000000002149332700000000000000000000290062500000000000000000000000002224763300000000000000000000290050000000000000000000000000002306726600000000000000000000290037500000000000000000000000002261756300000000000000000000290025000000000000000000000000002164382900000000000000000000290012500000000000000000000000002096350900000000000000000000290000000000000000000000000000002193208300000000000000000000289987500000000000000000000000002205982700000000000000000000289975000000000000000000000000002297235100000000000000000000289962500000000000000000000000002208971000000000000000000000289950000000000000000000000000002085338700000000000000000000289937500000000000000000000000001909912600000000000000000000289925000000000000000000000000002048604300000000000000000000289912500000000000000000000000002227803300000000000000000000289900000000000000000000000000002066602300000000000000000000289887500000000000000000000000002241021400000000000000000000289875000000000000000000000000002146949800000000000000000000289862500000000000000000000000001991439300000000000000000000289850000000000000000000000000002072904000000000000000000000289837500000000000000000000000002067073800000000000000000000289825000000000000000000000000002095137600000000000000000000289812500000000000000000000000002243668300000000000000000000289800000000000000000000,
    2448202000000000000000000000291387500000000000000000000000002388926900000000000000000000291375000000000000000000000000002264142700000000000000000000291362500000000000000000000000002200114400000000000000000000291350000000000000000000000000002172297600000000000000000000291337500000000000000000000000002230796700000000000000000000291325000000000000000000000000002190737200000000000000000000291312500000000000000000000000002031442200000000000000000000291300000000000000000000000000001966002700000000000000000000291287500000000000000000000000002070934100000000000000000000291275000000000000000000000000002167612000000000000000000000291262500000000000000000000000002261653900000000000000000000291250000000000000000000000000002313008500000000000000000000291237500000000000000000000000002230457600000000000000000000291225000000000000000000000000002308966700000000000000000000291212500000000000000000000000002167544900000000000000000000291200000000000000000000000000002051533800000000000000000000291187500000000000000000000000002157788800000000000000000000291175000000000000000000000000002118818000000000000000000000291162500000000000000000000000002160852400000000000000000000291150000000000000000000000000002196844200000000000000000000291137500000000000000000000000002168468500000000000000000000291125000000000000000000000000002013221900000000000000000000291112500000000000000000000000002234666700000000000000000000291100000000000000000000000000002253093300000000000000000000291087500000000000000000000000002247964400000000000000000000291075000000000000000000000000002374925800000000000000000000291062500000000000000000000000002380539400000000000000000000291050000000000000000000000000003216444100000000000000000000291037500000000000000000000000005361744900000000000000000000291025000000000000000000000000003881571000000000000000000000291012500000000000000000000000002162825800000000000000000000291000000000000000000000000000002239984600000000000000000000290987500000000000000000000000002239533300000000000000000000290975000000000000000000000000002259613400000000000000000000290962500000000000000000000000002212559400000000000000000000290950000000000000000000000000002204788600000000000000000000290937500000000000000000000000002184455500000000000000000000290925000000000000000000000000002187052700000000000000000000290912500000000000000000000000002085979000000000000000000000290900000000000000000000000000002205581200000000000000000000290887500000000000000000000000002164545100000000000000000000290875000000000000000000000000002314736500000000000000000000290862500000000000000000000000002276074200000000000000000000290850000000000000000000000000002243318400000000000000000000290837500000000000000000000000002059333700000000000000000000290825000000000000000000000000002020482200000000000000000000290812500000000000000000000000002242721600000000000000000000290800000000000000000000000000002481301800000000000000000000290787500000000000000000000000002418578400000000000000000000290775000000000000000000000000002258236200000000000000000000290762500000000000000000000000002284196100000000000000000000290750000000000000000000000000002234818800000000000000000000290737500000000000000000000000002081643300000000000000000000290725000000000000000000000000002078289700000000000000000000290712500000000000000000000000002150733800000000000000000000290700000000000000000000000000002123713500000000000000000000290687500000000000000000000000002223423900000000000000000000290675000000000000000000000000002172745500000000000000000000290662500000000000000000000000002259129000000000000000000000290650000000000000000000000000002104783500000000000000000000290637500000000000000000000000002079043800000000000000000000290625000000000000000000000000002168358000000000000000000000290612500000000000000000000000002079794500000000000000000000290600000000000000000000,
    2422549100000000000000000000292187500000000000000000000000002273451800000000000000000000292175000000000000000000000000002086678000000000000000000000292162500000000000000000000000002218504100000000000000000000292150000000000000000000000000002392202200000000000000000000292137500000000000000000000000002360241800000000000000000000292125000000000000000000000000002270821900000000000000000000292112500000000000000000000000002128007800000000000000000000292100000000000000000000000000002094380400000000000000000000292087500000000000000000000000002110091300000000000000000000292075000000000000000000000000002093647600000000000000000000292062500000000000000000000000002055015900000000000000000000292050000000000000000000000000002192543900000000000000000000292037500000000000000000000000002137757800000000000000000000292025000000000000000000000000002182097600000000000000000000292012500000000000000000000000002239542200000000000000000000292000000000000000000000000000001997425700000000000000000000291987500000000000000000000000002133034100000000000000000000291975000000000000000000000000002390909900000000000000000000291962500000000000000000000000002364088800000000000000000000291950000000000000000000000000002157318800000000000000000000291937500000000000000000000000001959350100000000000000000000291925000000000000000000000000002191706900000000000000000000291912500000000000000000000000002219199900000000000000000000291900000000000000000000000000002273749100000000000000000000291887500000000000000000000000002179815200000000000000000000291875000000000000000000000000002119848600000000000000000000291862500000000000000000000000002016075300000000000000000000291850000000000000000000000000002023831800000000000000000000291837500000000000000000000000002009485500000000000000000000291825000000000000000000000000002207509400000000000000000000291812500000000000000000000000002295542300000000000000000000291800000000000000000000000000002237990600000000000000000000291787500000000000000000000000002041503300000000000000000000291775000000000000000000000000002066120900000000000000000000291762500000000000000000000000002074218300000000000000000000291750000000000000000000000000002092217800000000000000000000291737500000000000000000000000002145022300000000000000000000291725000000000000000000000000002205330700000000000000000000291712500000000000000000000000002258119500000000000000000000291700000000000000000000000000002332832200000000000000000000291687500000000000000000000000002342355100000000000000000000291675000000000000000000000000002247887900000000000000000000291662500000000000000000000000002138761000000000000000000000291650000000000000000000000000002088175300000000000000000000291637500000000000000000000000002150383600000000000000000000291625000000000000000000000000002194391400000000000000000000291612500000000000000000000000002268253000000000000000000000291600000000000000000000000000002223996900000000000000000000291587500000000000000000000000002180408800000000000000000000291575000000000000000000000000002257995300000000000000000000291562500000000000000000000000002260194300000000000000000000291550000000000000000000000000002179683200000000000000000000291537500000000000000000000000002217833400000000000000000000291525000000000000000000000000002238789600000000000000000000291512500000000000000000000000002102228100000000000000000000291500000000000000000000000000002158490900000000000000000000291487500000000000000000000000002211722000000000000000000000291475000000000000000000000000002300836400000000000000000000291462500000000000000000000000002238503600000000000000000000291450000000000000000000000000002139947700000000000000000000291437500000000000000000000000002178275100000000000000000000291425000000000000000000000000002326556700000000000000000000291412500000000000000000000000002358545800000000000000000000291400000000000000000000,
    2065709600000000000000000000292987500000000000000000000000002177016800000000000000000000292975000000000000000000000000002219568100000000000000000000292962500000000000000000000000002325799400000000000000000000292950000000000000000000000000002296964100000000000000000000292937500000000000000000000000002109882400000000000000000000292925000000000000000000000000002184115500000000000000000000292912500000000000000000000000002221956900000000000000000000292900000000000000000000000000002220330300000000000000000000292887500000000000000000000000002303236900000000000000000000292875000000000000000000000000002213302200000000000000000000292862500000000000000000000000002148827800000000000000000000292850000000000000000000000000002223542100000000000000000000292837500000000000000000000000002045229900000000000000000000292825000000000000000000000000002181485800000000000000000000292812500000000000000000000000002387880100000000000000000000292800000000000000000000000000002110259200000000000000000000292787500000000000000000000000002089480300000000000000000000292775000000000000000000000000002099257600000000000000000000292762500000000000000000000000002252237300000000000000000000292750000000000000000000000000002313258900000000000000000000292737500000000000000000000000002292841200000000000000000000292725000000000000000000000000002410369800000000000000000000292712500000000000000000000000002200583700000000000000000000292700000000000000000000000000002144607400000000000000000000292687500000000000000000000000002129683700000000000000000000292675000000000000000000000000002221259700000000000000000000292662500000000000000000000000002279298600000000000000000000292650000000000000000000000000002187898400000000000000000000292637500000000000000000000000002317140900000000000000000000292625000000000000000000000000002320858800000000000000000000292612500000000000000000000000002241283800000000000000000000292600000000000000000000000000002249661100000000000000000000292587500000000000000000000000002169481700000000000000000000292575000000000000000000000000002307797600000000000000000000292562500000000000000000000000002220714700000000000000000000292550000000000000000000000000002249999800000000000000000000292537500000000000000000000000002265748500000000000000000000292525000000000000000000000000002067101900000000000000000000292512500000000000000000000000002167497600000000000000000000292500000000000000000000000000002072662000000000000000000000292487500000000000000000000000001988881500000000000000000000292475000000000000000000000000002216355000000000000000000000292462500000000000000000000000002089888000000000000000000000292450000000000000000000000000001994614400000000000000000000292437500000000000000000000000002030081900000000000000000000292425000000000000000000000000002194529500000000000000000000292412500000000000000000000000002288651800000000000000000000292400000000000000000000000000002213648000000000000000000000292387500000000000000000000000002157125000000000000000000000292375000000000000000000000000002337823900000000000000000000292362500000000000000000000000002277060400000000000000000000292350000000000000000000000000002271942900000000000000000000292337500000000000000000000000002227970200000000000000000000292325000000000000000000000000002108744800000000000000000000292312500000000000000000000000002133269600000000000000000000292300000000000000000000000000002218220100000000000000000000292287500000000000000000000000002329232800000000000000000000292275000000000000000000000000003027036100000000000000000000292262500000000000000000000000002572762300000000000000000000292250000000000000000000000000002195581100000000000000000000292237500000000000000000000000002128767500000000000000000000292225000000000000000000000000002120726800000000000000000000292212500000000000000000000000002319103700000000000000000000292200000000000000000000,
    2156257800000000000000000000293787500000000000000000000000002115720000000000000000000000293775000000000000000000000000002189938600000000000000000000293762500000000000000000000000002270826100000000000000000000293750000000000000000000000000002342349500000000000000000000293737500000000000000000000000002358946700000000000000000000293725000000000000000000000000002309470000000000000000000000293712500000000000000000000000002119663500000000000000000000293700000000000000000000000000002250971500000000000000000000293687500000000000000000000000002400935400000000000000000000293675000000000000000000000000002284079700000000000000000000293662500000000000000000000000002368305900000000000000000000293650000000000000000000000000002313161900000000000000000000293637500000000000000000000000002246804600000000000000000000293625000000000000000000000000002304523400000000000000000000293612500000000000000000000000002151835200000000000000000000293600000000000000000000000000002198756400000000000000000000293587500000000000000000000000002331449800000000000000000000293575000000000000000000000000002445376800000000000000000000293562500000000000000000000000002333406200000000000000000000293550000000000000000000000000002324924500000000000000000000293537500000000000000000000000002324223800000000000000000000293525000000000000000000000000002178077700000000000000000000293512500000000000000000000000002241566500000000000000000000293500000000000000000000000000002246474800000000000000000000293487500000000000000000000000002159723300000000000000000000293475000000000000000000000000002082337500000000000000000000293462500000000000000000000000001988551300000000000000000000293450000000000000000000000000002109877600000000000000000000293437500000000000000000000000002225264800000000000000000000293425000000000000000000000000002356983000000000000000000000293412500000000000000000000000002323691000000000000000000000293400000000000000000000000000002295987100000000000000000000293387500000000000000000000000002218125000000000000000000000293375000000000000000000000000002184852300000000000000000000293362500000000000000000000000002282679400000000000000000000293350000000000000000000000000002077553700000000000000000000293337500000000000000000000000002204301600000000000000000000293325000000000000000000000000002261173000000000000000000000293312500000000000000000000000002188256500000000000000000000293300000000000000000000000000002372645200000000000000000000293287500000000000000000000000002354222100000000000000000000293275000000000000000000000000002111437500000000000000000000293262500000000000000000000000001982077500000000000000000000293250000000000000000000000000001968657800000000000000000000293237500000000000000000000000002054364000000000000000000000293225000000000000000000000000002263524500000000000000000000293212500000000000000000000000002379024500000000000000000000293200000000000000000000000000002306744500000000000000000000293187500000000000000000000000002223438200000000000000000000293175000000000000000000000000002364032300000000000000000000293162500000000000000000000000002297100700000000000000000000293150000000000000000000000000002251471600000000000000000000293137500000000000000000000000002304945400000000000000000000293125000000000000000000000000002267969900000000000000000000293112500000000000000000000000002245225400000000000000000000293100000000000000000000000000002169720300000000000000000000293087500000000000000000000000001993142000000000000000000000293075000000000000000000000000002146571200000000000000000000293062500000000000000000000000003816606700000000000000000000293050000000000000000000000000014999182000000000000000000000293037500000000000000000000000014629311000000000000000000000293025000000000000000000000000003484003600000000000000000000293012500000000000000000000000002135362200000000000000000000293000000000000000000000,
    2183372500000000000000000000294587500000000000000000000000002220687400000000000000000000294575000000000000000000000000002255910300000000000000000000294562500000000000000000000000002374198600000000000000000000294550000000000000000000000000002422050800000000000000000000294537500000000000000000000000002551596600000000000000000000294525000000000000000000000000002347619000000000000000000000294512500000000000000000000000002356608900000000000000000000294500000000000000000000000000002318524400000000000000000000294487500000000000000000000000002342830300000000000000000000294475000000000000000000000000002361492400000000000000000000294462500000000000000000000000002204660400000000000000000000294450000000000000000000000000002243449700000000000000000000294437500000000000000000000000002340621200000000000000000000294425000000000000000000000000002343848100000000000000000000294412500000000000000000000000002100921000000000000000000000294400000000000000000000000000002097685100000000000000000000294387500000000000000000000000002211858500000000000000000000294375000000000000000000000000002199590600000000000000000000294362500000000000000000000000002178064700000000000000000000294350000000000000000000000000002137181500000000000000000000294337500000000000000000000000002067631300000000000000000000294325000000000000000000000000002263417000000000000000000000294312500000000000000000000000002241196100000000000000000000294300000000000000000000000000002232815700000000000000000000294287500000000000000000000000002571779700000000000000000000294275000000000000000000000000002608486200000000000000000000294262500000000000000000000000002563813300000000000000000000294250000000000000000000000000002462097000000000000000000000294237500000000000000000000000002285281100000000000000000000294225000000000000000000000000002340061200000000000000000000294212500000000000000000000000002060837100000000000000000000294200000000000000000000000000002055557900000000000000000000294187500000000000000000000000002228048500000000000000000000294175000000000000000000000000002366003300000000000000000000294162500000000000000000000000002156057200000000000000000000294150000000000000000000000000002309574900000000000000000000294137500000000000000000000000002314111300000000000000000000294125000000000000000000000000002154331100000000000000000000294112500000000000000000000000002170462300000000000000000000294100000000000000000000000000002269532900000000000000000000294087500000000000000000000000002168556500000000000000000000294075000000000000000000000000002061333700000000000000000000294062500000000000000000000000002265846300000000000000000000294050000000000000000000000000002291828600000000000000000000294037500000000000000000000000002376100700000000000000000000294025000000000000000000000000002375373000000000000000000000294012500000000000000000000000002228432500000000000000000000294000000000000000000000000000002273472200000000000000000000293987500000000000000000000000002172418300000000000000000000293975000000000000000000000000002109935000000000000000000000293962500000000000000000000000002081766100000000000000000000293950000000000000000000000000002048673800000000000000000000293937500000000000000000000000002126629000000000000000000000293925000000000000000000000000002343521300000000000000000000293912500000000000000000000000002525285300000000000000000000293900000000000000000000000000002314625700000000000000000000293887500000000000000000000000002279083000000000000000000000293875000000000000000000000000002327644900000000000000000000293862500000000000000000000000002204710800000000000000000000293850000000000000000000000000002273110100000000000000000000293837500000000000000000000000002316444100000000000000000000293825000000000000000000000000002283907300000000000000000000293812500000000000000000000000002145912600000000000000000000293800000000000000000000,
    2224249100000000000000000000295387500000000000000000000000002289918600000000000000000000295375000000000000000000000000002184593900000000000000000000295362500000000000000000000000002184873100000000000000000000295350000000000000000000000000002409241300000000000000000000295337500000000000000000000000002409672600000000000000000000295325000000000000000000000000002235049400000000000000000000295312500000000000000000000000002301098100000000000000000000295300000000000000000000000000002279728500000000000000000000295287500000000000000000000000002152678400000000000000000000295275000000000000000000000000002058034900000000000000000000295262500000000000000000000000002248918200000000000000000000295250000000000000000000000000002192742500000000000000000000295237500000000000000000000000002310232800000000000000000000295225000000000000000000000000002186888800000000000000000000295212500000000000000000000000002254245700000000000000000000295200000000000000000000000000002230739000000000000000000000295187500000000000000000000000002125848500000000000000000000295175000000000000000000000000001973537800000000000000000000295162500000000000000000000000002206589000000000000000000000295150000000000000000000000000002236410300000000000000000000295137500000000000000000000000002169226100000000000000000000295125000000000000000000000000002026753100000000000000000000295112500000000000000000000000002100610500000000000000000000295100000000000000000000000000002128916500000000000000000000295087500000000000000000000000002178095300000000000000000000295075000000000000000000000000002102150500000000000000000000295062500000000000000000000000002111534400000000000000000000295050000000000000000000000000002241297900000000000000000000295037500000000000000000000000002316011500000000000000000000295025000000000000000000000000002174745800000000000000000000295012500000000000000000000000002143268000000000000000000000295000000000000000000000000000002214929400000000000000000000294987500000000000000000000000002140792600000000000000000000294975000000000000000000000000002168181800000000000000000000294962500000000000000000000000002066764300000000000000000000294950000000000000000000000000002238326500000000000000000000294937500000000000000000000000002268107200000000000000000000294925000000000000000000000000001985695000000000000000000000294912500000000000000000000000002115098800000000000000000000294900000000000000000000000000002255747200000000000000000000294887500000000000000000000000002351042400000000000000000000294875000000000000000000000000002318245000000000000000000000294862500000000000000000000000002239242400000000000000000000294850000000000000000000000000002218802600000000000000000000294837500000000000000000000000002278503500000000000000000000294825000000000000000000000000002147124500000000000000000000294812500000000000000000000000002174203700000000000000000000294800000000000000000000000000002181015000000000000000000000294787500000000000000000000000002321893300000000000000000000294775000000000000000000000000002216304000000000000000000000294762500000000000000000000000002234586000000000000000000000294750000000000000000000000000002200313300000000000000000000294737500000000000000000000000002220013300000000000000000000294725000000000000000000000000002310356200000000000000000000294712500000000000000000000000002327652200000000000000000000294700000000000000000000000000002270399800000000000000000000294687500000000000000000000000002253920100000000000000000000294675000000000000000000000000002063670400000000000000000000294662500000000000000000000000002185179200000000000000000000294650000000000000000000000000002213299400000000000000000000294637500000000000000000000000002164643500000000000000000000294625000000000000000000000000002151209300000000000000000000294612500000000000000000000000002184991100000000000000000000294600000000000000000000,
    2232404700000000000000000000296187500000000000000000000000002199918600000000000000000000296175000000000000000000000000002201536500000000000000000000296162500000000000000000000000002337462300000000000000000000296150000000000000000000000000002416079500000000000000000000296137500000000000000000000000002336665000000000000000000000296125000000000000000000000000002279651700000000000000000000296112500000000000000000000000002007435300000000000000000000296100000000000000000000000000002021947100000000000000000000296087500000000000000000000000002217342900000000000000000000296075000000000000000000000000002194012100000000000000000000296062500000000000000000000000002470116900000000000000000000296050000000000000000000000000002371417100000000000000000000296037500000000000000000000000002025646000000000000000000000296025000000000000000000000000002270416300000000000000000000296012500000000000000000000000002167487300000000000000000000296000000000000000000000000000002178709200000000000000000000295987500000000000000000000000002307423900000000000000000000295975000000000000000000000000002418324600000000000000000000295962500000000000000000000000002232146800000000000000000000295950000000000000000000000000002256150800000000000000000000295937500000000000000000000000002123959300000000000000000000295925000000000000000000000000002267570900000000000000000000295912500000000000000000000000002033577100000000000000000000295900000000000000000000000000002140025700000000000000000000295887500000000000000000000000002215429700000000000000000000295875000000000000000000000000002176718700000000000000000000295862500000000000000000000000002226223000000000000000000000295850000000000000000000000000002193286100000000000000000000295837500000000000000000000000002296056000000000000000000000295825000000000000000000000000002296965900000000000000000000295812500000000000000000000000002030585600000000000000000000295800000000000000000000000000002071874900000000000000000000295787500000000000000000000000002085515700000000000000000000295775000000000000000000000000002136410900000000000000000000295762500000000000000000000000002338067700000000000000000000295750000000000000000000000000002162645600000000000000000000295737500000000000000000000000002124473000000000000000000000295725000000000000000000000000002276759900000000000000000000295712500000000000000000000000002187432800000000000000000000295700000000000000000000000000002249364200000000000000000000295687500000000000000000000000002322130800000000000000000000295675000000000000000000000000002256824700000000000000000000295662500000000000000000000000002209915300000000000000000000295650000000000000000000000000002134504400000000000000000000295637500000000000000000000000002108457700000000000000000000295625000000000000000000000000002074034600000000000000000000295612500000000000000000000000002182693100000000000000000000295600000000000000000000000000002209478500000000000000000000295587500000000000000000000000002143518200000000000000000000295575000000000000000000000000002260373000000000000000000000295562500000000000000000000000002175961300000000000000000000295550000000000000000000000000002305834300000000000000000000295537500000000000000000000000002413523700000000000000000000295525000000000000000000000000002196822900000000000000000000295512500000000000000000000000002174600300000000000000000000295500000000000000000000000000002175071300000000000000000000295487500000000000000000000000002241270100000000000000000000295475000000000000000000000000002197324000000000000000000000295462500000000000000000000000002175460200000000000000000000295450000000000000000000000000002252559400000000000000000000295437500000000000000000000000002332167600000000000000000000295425000000000000000000000000002285108700000000000000000000295412500000000000000000000000002271840200000000000000000000295400000000000000000000,
    2132783000000000000000000000296987500000000000000000000000002009003600000000000000000000296975000000000000000000000000002138704800000000000000000000296962500000000000000000000000002048422700000000000000000000296950000000000000000000000000002132021100000000000000000000296937500000000000000000000000002166403600000000000000000000296925000000000000000000000000002087590100000000000000000000296912500000000000000000000000002290441500000000000000000000296900000000000000000000000000002345676200000000000000000000296887500000000000000000000000002277886400000000000000000000296875000000000000000000000000002197337200000000000000000000296862500000000000000000000000002279149300000000000000000000296850000000000000000000000000002132701200000000000000000000296837500000000000000000000000002209824600000000000000000000296825000000000000000000000000002211615000000000000000000000296812500000000000000000000000002155943600000000000000000000296800000000000000000000000000002109964100000000000000000000296787500000000000000000000000002381800200000000000000000000296775000000000000000000000000002471285900000000000000000000296762500000000000000000000000002237007100000000000000000000296750000000000000000000000000002159795700000000000000000000296737500000000000000000000000002233200500000000000000000000296725000000000000000000000000002198365200000000000000000000296712500000000000000000000000002329484900000000000000000000296700000000000000000000000000002327115300000000000000000000296687500000000000000000000000002287413400000000000000000000296675000000000000000000000000002165007700000000000000000000296662500000000000000000000000002308534400000000000000000000296650000000000000000000000000002213790200000000000000000000296637500000000000000000000000002424957600000000000000000000296625000000000000000000000000002383905500000000000000000000296612500000000000000000000000002364933400000000000000000000296600000000000000000000000000002317459900000000000000000000296587500000000000000000000000002221727800000000000000000000296575000000000000000000000000002309716700000000000000000000296562500000000000000000000000002204241900000000000000000000296550000000000000000000000000002143631000000000000000000000296537500000000000000000000000002286716000000000000000000000296525000000000000000000000000002256856200000000000000000000296512500000000000000000000000002245651300000000000000000000296500000000000000000000000000002273005100000000000000000000296487500000000000000000000000002331232700000000000000000000296475000000000000000000000000002453112300000000000000000000296462500000000000000000000000002316007000000000000000000000296450000000000000000000000000002068270000000000000000000000296437500000000000000000000000002030505500000000000000000000296425000000000000000000000000002059516300000000000000000000296412500000000000000000000000002004308400000000000000000000296400000000000000000000000000002256631400000000000000000000296387500000000000000000000000002263714100000000000000000000296375000000000000000000000000002075769500000000000000000000296362500000000000000000000000002129276300000000000000000000296350000000000000000000000000002241462600000000000000000000296337500000000000000000000000002331031700000000000000000000296325000000000000000000000000002158254200000000000000000000296312500000000000000000000000002121420900000000000000000000296300000000000000000000000000002216592800000000000000000000296287500000000000000000000000002411823300000000000000000000296275000000000000000000000000002359000600000000000000000000296262500000000000000000000000002252471500000000000000000000296250000000000000000000000000002309044800000000000000000000296237500000000000000000000000002260150400000000000000000000296225000000000000000000000000002407759600000000000000000000296212500000000000000000000000002322071700000000000000000000296200000000000000000000,
    2446387100000000000000000000297787500000000000000000000000002329355100000000000000000000297775000000000000000000000000002241051300000000000000000000297762500000000000000000000000002346183500000000000000000000297750000000000000000000000000002363461100000000000000000000297737500000000000000000000000002393949300000000000000000000297725000000000000000000000000002298823900000000000000000000297712500000000000000000000000002313351300000000000000000000297700000000000000000000000000002138639400000000000000000000297687500000000000000000000000002224998600000000000000000000297675000000000000000000000000002405427200000000000000000000297662500000000000000000000000002157025600000000000000000000297650000000000000000000000000002104321600000000000000000000297637500000000000000000000000002157566900000000000000000000297625000000000000000000000000002218492900000000000000000000297612500000000000000000000000002323425400000000000000000000297600000000000000000000000000002235089300000000000000000000297587500000000000000000000000002252013000000000000000000000297575000000000000000000000000002279521500000000000000000000297562500000000000000000000000002210230600000000000000000000297550000000000000000000000000002279790400000000000000000000297537500000000000000000000000002306850400000000000000000000297525000000000000000000000000002434709300000000000000000000297512500000000000000000000000002344827700000000000000000000297500000000000000000000000000002216867300000000000000000000297487500000000000000000000000002307187000000000000000000000297475000000000000000000000000002259769600000000000000000000297462500000000000000000000000002152389900000000000000000000297450000000000000000000000000002424807700000000000000000000297437500000000000000000000000002396463300000000000000000000297425000000000000000000000000002318004600000000000000000000297412500000000000000000000000002233054600000000000000000000297400000000000000000000000000002124590100000000000000000000297387500000000000000000000000002098765800000000000000000000297375000000000000000000000000002096911100000000000000000000297362500000000000000000000000002264755200000000000000000000297350000000000000000000000000002175975900000000000000000000297337500000000000000000000000002246557500000000000000000000297325000000000000000000000000002456021400000000000000000000297312500000000000000000000000002269912700000000000000000000297300000000000000000000000000002231235100000000000000000000297287500000000000000000000000002181551000000000000000000000297275000000000000000000000000002101405000000000000000000000297262500000000000000000000000002173741000000000000000000000297250000000000000000000000000002229968400000000000000000000297237500000000000000000000000002318757300000000000000000000297225000000000000000000000000002317536500000000000000000000297212500000000000000000000000002301069800000000000000000000297200000000000000000000000000002254773800000000000000000000297187500000000000000000000000002223161200000000000000000000297175000000000000000000000000002306387700000000000000000000297162500000000000000000000000002241723300000000000000000000297150000000000000000000000000002144898500000000000000000000297137500000000000000000000000002053261700000000000000000000297125000000000000000000000000002151153200000000000000000000297112500000000000000000000000002283983400000000000000000000297100000000000000000000000000002450352500000000000000000000297087500000000000000000000000002600888400000000000000000000297075000000000000000000000000002490823600000000000000000000297062500000000000000000000000002231335300000000000000000000297050000000000000000000000000002106763800000000000000000000297037500000000000000000000000002041417600000000000000000000297025000000000000000000000000002214242000000000000000000000297012500000000000000000000000002168685400000000000000000000297000000000000000000000,
    2254673800000000000000000000298587500000000000000000000000002373488700000000000000000000298575000000000000000000000000002359580000000000000000000000298562500000000000000000000000002203883300000000000000000000298550000000000000000000000000001989927600000000000000000000298537500000000000000000000000002277377600000000000000000000298525000000000000000000000000002190936900000000000000000000298512500000000000000000000000002174224600000000000000000000298500000000000000000000000000002275650200000000000000000000298487500000000000000000000000002269110800000000000000000000298475000000000000000000000000002137264800000000000000000000298462500000000000000000000000002158889100000000000000000000298450000000000000000000000000002210947200000000000000000000298437500000000000000000000000002215187200000000000000000000298425000000000000000000000000002091477600000000000000000000298412500000000000000000000000002062826800000000000000000000298400000000000000000000000000002156894100000000000000000000298387500000000000000000000000002196391300000000000000000000298375000000000000000000000000002187864200000000000000000000298362500000000000000000000000002217553100000000000000000000298350000000000000000000000000002269041700000000000000000000298337500000000000000000000000002335459600000000000000000000298325000000000000000000000000002297251800000000000000000000298312500000000000000000000000002376798800000000000000000000298300000000000000000000000000002283381300000000000000000000298287500000000000000000000000002267753300000000000000000000298275000000000000000000000000002423129000000000000000000000298262500000000000000000000000002238988100000000000000000000298250000000000000000000000000002023296700000000000000000000298237500000000000000000000000002062522000000000000000000000298225000000000000000000000000002119981100000000000000000000298212500000000000000000000000002343679500000000000000000000298200000000000000000000000000002236705700000000000000000000298187500000000000000000000000002074061300000000000000000000298175000000000000000000000000001984450000000000000000000000298162500000000000000000000000001934754400000000000000000000298150000000000000000000000000002139978100000000000000000000298137500000000000000000000000002087709700000000000000000000298125000000000000000000000000002269341700000000000000000000298112500000000000000000000000002434992700000000000000000000298100000000000000000000000000002315481400000000000000000000298087500000000000000000000000002353019800000000000000000000298075000000000000000000000000002206498500000000000000000000298062500000000000000000000000002141783100000000000000000000298050000000000000000000000000002252218700000000000000000000298037500000000000000000000000002298116500000000000000000000298025000000000000000000000000002385619500000000000000000000298012500000000000000000000000002505636500000000000000000000298000000000000000000000000000002553899900000000000000000000297987500000000000000000000000002135524200000000000000000000297975000000000000000000000000002043973100000000000000000000297962500000000000000000000000002096114700000000000000000000297950000000000000000000000000002240892000000000000000000000297937500000000000000000000000002243205700000000000000000000297925000000000000000000000000002311222700000000000000000000297912500000000000000000000000002353160900000000000000000000297900000000000000000000000000002412381000000000000000000000297887500000000000000000000000002138910300000000000000000000297875000000000000000000000000002215767300000000000000000000297862500000000000000000000000002365849900000000000000000000297850000000000000000000000000002326672400000000000000000000297837500000000000000000000000002101151400000000000000000000297825000000000000000000000000002126731800000000000000000000297812500000000000000000000000002236323700000000000000000000297800000000000000000000,
    2185321600000000000000000000299387500000000000000000000000002392145100000000000000000000299375000000000000000000000000002445449700000000000000000000299362500000000000000000000000002359773700000000000000000000299350000000000000000000000000002220779800000000000000000000299337500000000000000000000000002282599900000000000000000000299325000000000000000000000000002233296700000000000000000000299312500000000000000000000000002322808900000000000000000000299300000000000000000000000000002158841800000000000000000000299287500000000000000000000000002207370600000000000000000000299275000000000000000000000000002294777900000000000000000000299262500000000000000000000000002288946400000000000000000000299250000000000000000000000000002257607600000000000000000000299237500000000000000000000000002382797200000000000000000000299225000000000000000000000000002395878400000000000000000000299212500000000000000000000000002159296100000000000000000000299200000000000000000000000000002233109700000000000000000000299187500000000000000000000000002093886100000000000000000000299175000000000000000000000000002042007200000000000000000000299162500000000000000000000000002199030900000000000000000000299150000000000000000000000000002371836000000000000000000000299137500000000000000000000000002403521700000000000000000000299125000000000000000000000000002434049800000000000000000000299112500000000000000000000000002124634600000000000000000000299100000000000000000000000000002106121700000000000000000000299087500000000000000000000000002197128500000000000000000000299075000000000000000000000000001952162900000000000000000000299062500000000000000000000000002052237100000000000000000000299050000000000000000000000000002259202800000000000000000000299037500000000000000000000000002319871200000000000000000000299025000000000000000000000000002335208700000000000000000000299012500000000000000000000000002187902500000000000000000000299000000000000000000000000000002104192000000000000000000000298987500000000000000000000000002072386500000000000000000000298975000000000000000000000000002208822700000000000000000000298962500000000000000000000000002224304900000000000000000000298950000000000000000000000000002140613100000000000000000000298937500000000000000000000000002357404000000000000000000000298925000000000000000000000000002366848400000000000000000000298912500000000000000000000000002327935100000000000000000000298900000000000000000000000000002314160800000000000000000000298887500000000000000000000000002323001800000000000000000000298875000000000000000000000000002266160800000000000000000000298862500000000000000000000000002126912900000000000000000000298850000000000000000000000000002211159400000000000000000000298837500000000000000000000000002489207900000000000000000000298825000000000000000000000000002532835100000000000000000000298812500000000000000000000000002378779200000000000000000000298800000000000000000000000000002332326700000000000000000000298787500000000000000000000000002246493200000000000000000000298775000000000000000000000000002157366900000000000000000000298762500000000000000000000000002142671000000000000000000000298750000000000000000000000000002155685400000000000000000000298737500000000000000000000000002276441000000000000000000000298725000000000000000000000000002386259800000000000000000000298712500000000000000000000000002226298600000000000000000000298700000000000000000000000000002096878000000000000000000000298687500000000000000000000000002146788300000000000000000000298675000000000000000000000000002253009200000000000000000000298662500000000000000000000000002339266900000000000000000000298650000000000000000000000000002297698900000000000000000000298637500000000000000000000000002254430500000000000000000000298625000000000000000000000000002329741600000000000000000000298612500000000000000000000000002175252600000000000000000000298600000000000000000000,
    2537696000000000000000000000300187500000000000000000000000002454824300000000000000000000300175000000000000000000000000002392770700000000000000000000300162500000000000000000000000002304551000000000000000000000300150000000000000000000000000002436505400000000000000000000300137500000000000000000000000002443062100000000000000000000300125000000000000000000000000002390384600000000000000000000300112500000000000000000000000002417214600000000000000000000300100000000000000000000000000002440385200000000000000000000300087500000000000000000000000002515782900000000000000000000300075000000000000000000000000002568409800000000000000000000300062500000000000000000000000002687607900000000000000000000300050000000000000000000000000002703946900000000000000000000300037500000000000000000000000003880949300000000000000000000300025000000000000000000000000006296277300000000000000000000300012500000000000000000000000006324861100000000000000000000300000000000000000000000000000003928710100000000000000000000299987500000000000000000000000002635031900000000000000000000299975000000000000000000000000002383738000000000000000000000299962500000000000000000000000002307335300000000000000000000299950000000000000000000000000002086196600000000000000000000299937500000000000000000000000002049701900000000000000000000299925000000000000000000000000002208103000000000000000000000299912500000000000000000000000002449362500000000000000000000299900000000000000000000000000002302342900000000000000000000299887500000000000000000000000002349809000000000000000000000299875000000000000000000000000002362649500000000000000000000299862500000000000000000000000002310214500000000000000000000299850000000000000000000000000002279355300000000000000000000299837500000000000000000000000002366326200000000000000000000299825000000000000000000000000002413698100000000000000000000299812500000000000000000000000002379737800000000000000000000299800000000000000000000000000002433155300000000000000000000299787500000000000000000000000002329378600000000000000000000299775000000000000000000000000002359762900000000000000000000299762500000000000000000000000002517645100000000000000000000299750000000000000000000000000002375024800000000000000000000299737500000000000000000000000002219627400000000000000000000299725000000000000000000000000002242858400000000000000000000299712500000000000000000000000002319514700000000000000000000299700000000000000000000000000002092105600000000000000000000299687500000000000000000000000002048289500000000000000000000299675000000000000000000000000002325329500000000000000000000299662500000000000000000000000002382085200000000000000000000299650000000000000000000000000002383338700000000000000000000299637500000000000000000000000002272803000000000000000000000299625000000000000000000000000002049630800000000000000000000299612500000000000000000000000002156315100000000000000000000299600000000000000000000000000002189454500000000000000000000299587500000000000000000000000002164416800000000000000000000299575000000000000000000000000002087947300000000000000000000299562500000000000000000000000002124043300000000000000000000299550000000000000000000000000002011612800000000000000000000299537500000000000000000000000002284130100000000000000000000299525000000000000000000000000002168141500000000000000000000299512500000000000000000000000002225026700000000000000000000299500000000000000000000000000002373627300000000000000000000299487500000000000000000000000002208746800000000000000000000299475000000000000000000000000002256624900000000000000000000299462500000000000000000000000002384403500000000000000000000299450000000000000000000000000002270145000000000000000000000299437500000000000000000000000002268814200000000000000000000299425000000000000000000000000002309837800000000000000000000299412500000000000000000000000002352149300000000000000000000299400000000000000000000,
    2389868300000000000000000000300987500000000000000000000000002438180900000000000000000000300975000000000000000000000000002388695000000000000000000000300962500000000000000000000000002362693700000000000000000000300950000000000000000000000000002318413300000000000000000000300937500000000000000000000000002325476700000000000000000000300925000000000000000000000000002241383400000000000000000000300912500000000000000000000000002353277700000000000000000000300900000000000000000000000000002523327600000000000000000000300887500000000000000000000000002604478900000000000000000000300875000000000000000000000000002380410400000000000000000000300862500000000000000000000000002231369700000000000000000000300850000000000000000000000000002431740200000000000000000000300837500000000000000000000000002240145500000000000000000000300825000000000000000000000000002264062000000000000000000000300812500000000000000000000000002334078300000000000000000000300800000000000000000000000000002303816500000000000000000000300787500000000000000000000000002125819900000000000000000000300775000000000000000000000000002126666900000000000000000000300762500000000000000000000000002168780300000000000000000000300750000000000000000000000000002276497500000000000000000000300737500000000000000000000000002333665600000000000000000000300725000000000000000000000000002462529800000000000000000000300712500000000000000000000000002376945700000000000000000000300700000000000000000000000000002464168400000000000000000000300687500000000000000000000000002491237900000000000000000000300675000000000000000000000000002290307400000000000000000000300662500000000000000000000000002349926200000000000000000000300650000000000000000000000000002414773300000000000000000000300637500000000000000000000000002499700000000000000000000000300625000000000000000000000000002295710000000000000000000000300612500000000000000000000000002287581900000000000000000000300600000000000000000000000000002366661200000000000000000000300587500000000000000000000000002446696400000000000000000000300575000000000000000000000000002591082500000000000000000000300562500000000000000000000000002462791300000000000000000000300550000000000000000000000000002433543100000000000000000000300537500000000000000000000000002287129600000000000000000000300525000000000000000000000000002389429000000000000000000000300512500000000000000000000000002085867300000000000000000000300500000000000000000000000000002137311500000000000000000000300487500000000000000000000000002233696900000000000000000000300475000000000000000000000000002130137100000000000000000000300462500000000000000000000000002203660000000000000000000000300450000000000000000000000000002368554300000000000000000000300437500000000000000000000000002395605000000000000000000000300425000000000000000000000000002305801700000000000000000000300412500000000000000000000000002122769100000000000000000000300400000000000000000000000000002115224500000000000000000000300387500000000000000000000000002199954700000000000000000000300375000000000000000000000000002310194300000000000000000000300362500000000000000000000000002304953700000000000000000000300350000000000000000000000000002247979300000000000000000000300337500000000000000000000000002302061700000000000000000000300325000000000000000000000000002301626600000000000000000000300312500000000000000000000000002433429400000000000000000000300300000000000000000000000000002301834700000000000000000000300287500000000000000000000000002241899300000000000000000000300275000000000000000000000000002308999400000000000000000000300262500000000000000000000000002180103700000000000000000000300250000000000000000000000000002219507900000000000000000000300237500000000000000000000000002330606600000000000000000000300225000000000000000000000000002435649200000000000000000000300212500000000000000000000000002566951300000000000000000000300200000000000000000000,
    2421223100000000000000000000301787500000000000000000000000002322369400000000000000000000301775000000000000000000000000002255229700000000000000000000301762500000000000000000000000002283729900000000000000000000301750000000000000000000000000002276974300000000000000000000301737500000000000000000000000002381818700000000000000000000301725000000000000000000000000002149271700000000000000000000301712500000000000000000000000002251057400000000000000000000301700000000000000000000000000002126835600000000000000000000301687500000000000000000000000001963101500000000000000000000301675000000000000000000000000002098187900000000000000000000301662500000000000000000000000002146278000000000000000000000301650000000000000000000000000002043155400000000000000000000301637500000000000000000000000002223239900000000000000000000301625000000000000000000000000002275813700000000000000000000301612500000000000000000000000002071881800000000000000000000301600000000000000000000000000002089849500000000000000000000301587500000000000000000000000002132082700000000000000000000301575000000000000000000000000002144948500000000000000000000301562500000000000000000000000002102417000000000000000000000301550000000000000000000000000002055598700000000000000000000301537500000000000000000000000002270350100000000000000000000301525000000000000000000000000002316127200000000000000000000301512500000000000000000000000002410199300000000000000000000301500000000000000000000000000002470675500000000000000000000301487500000000000000000000000002153089400000000000000000000301475000000000000000000000000002164582600000000000000000000301462500000000000000000000000002412656500000000000000000000301450000000000000000000000000002407463700000000000000000000301437500000000000000000000000002349681300000000000000000000301425000000000000000000000000002515455900000000000000000000301412500000000000000000000000002279636000000000000000000000301400000000000000000000000000002301385900000000000000000000301387500000000000000000000000002331782300000000000000000000301375000000000000000000000000002078429100000000000000000000301362500000000000000000000000002294582600000000000000000000301350000000000000000000000000002288752800000000000000000000301337500000000000000000000000002189930400000000000000000000301325000000000000000000000000002348254700000000000000000000301312500000000000000000000000002211609500000000000000000000301300000000000000000000000000002087939800000000000000000000301287500000000000000000000000002125760400000000000000000000301275000000000000000000000000002272557400000000000000000000301262500000000000000000000000002380735400000000000000000000301250000000000000000000000000002307377400000000000000000000301237500000000000000000000000002324141700000000000000000000301225000000000000000000000000002486772200000000000000000000301212500000000000000000000000002384308100000000000000000000301200000000000000000000000000002390964500000000000000000000301187500000000000000000000000002297792800000000000000000000301175000000000000000000000000002190910300000000000000000000301162500000000000000000000000002225650600000000000000000000301150000000000000000000000000002474348400000000000000000000301137500000000000000000000000002397301600000000000000000000301125000000000000000000000000002277734100000000000000000000301112500000000000000000000000002240016300000000000000000000301100000000000000000000000000002373899000000000000000000000301087500000000000000000000000002437550700000000000000000000301075000000000000000000000000002318940100000000000000000000301062500000000000000000000000002230261900000000000000000000301050000000000000000000000000002391383400000000000000000000301037500000000000000000000000002321967300000000000000000000301025000000000000000000000000002352065200000000000000000000301012500000000000000000000000002221245400000000000000000000301000000000000000000000,
    2206832700000000000000000000302587500000000000000000000000002167479000000000000000000000302575000000000000000000000000002200629700000000000000000000302562500000000000000000000000002024169300000000000000000000302550000000000000000000000000002011374700000000000000000000302537500000000000000000000000002110174300000000000000000000302525000000000000000000000000002113921600000000000000000000302512500000000000000000000000002312927900000000000000000000302500000000000000000000000000002442360000000000000000000000302487500000000000000000000000002347767700000000000000000000302475000000000000000000000000002500065500000000000000000000302462500000000000000000000000002408144200000000000000000000302450000000000000000000000000002239855300000000000000000000302437500000000000000000000000002336711300000000000000000000302425000000000000000000000000002409527100000000000000000000302412500000000000000000000000002369606300000000000000000000302400000000000000000000000000002253560800000000000000000000302387500000000000000000000000002446754900000000000000000000302375000000000000000000000000002467052500000000000000000000302362500000000000000000000000002558974600000000000000000000302350000000000000000000000000002546612300000000000000000000302337500000000000000000000000002285014300000000000000000000302325000000000000000000000000002201318000000000000000000000302312500000000000000000000000002345382300000000000000000000302300000000000000000000000000002429113800000000000000000000302287500000000000000000000000002312282700000000000000000000302275000000000000000000000000002136721800000000000000000000302262500000000000000000000000002110523300000000000000000000302250000000000000000000000000002318367200000000000000000000302237500000000000000000000000002224190800000000000000000000302225000000000000000000000000002225354200000000000000000000302212500000000000000000000000002383721900000000000000000000302200000000000000000000000000002203217200000000000000000000302187500000000000000000000000002231536200000000000000000000302175000000000000000000000000002428461200000000000000000000302162500000000000000000000000002514919200000000000000000000302150000000000000000000000000002497164200000000000000000000302137500000000000000000000000002362357600000000000000000000302125000000000000000000000000002333557600000000000000000000302112500000000000000000000000002547713800000000000000000000302100000000000000000000000000002304391300000000000000000000302087500000000000000000000000002242925900000000000000000000302075000000000000000000000000002313807600000000000000000000302062500000000000000000000000002240820800000000000000000000302050000000000000000000000000002331744400000000000000000000302037500000000000000000000000002325759700000000000000000000302025000000000000000000000000002407571200000000000000000000302012500000000000000000000000002358187800000000000000000000302000000000000000000000000000002328386600000000000000000000301987500000000000000000000000002365744400000000000000000000301975000000000000000000000000002145278700000000000000000000301962500000000000000000000000002271083100000000000000000000301950000000000000000000000000002312872200000000000000000000301937500000000000000000000000002109322900000000000000000000301925000000000000000000000000002104893500000000000000000000301912500000000000000000000000002315190400000000000000000000301900000000000000000000000000002515802000000000000000000000301887500000000000000000000000002195707300000000000000000000301875000000000000000000000000002059924500000000000000000000301862500000000000000000000000002300695300000000000000000000301850000000000000000000000000002413008200000000000000000000301837500000000000000000000000002200485800000000000000000000301825000000000000000000000000002315200900000000000000000000301812500000000000000000000000002312179900000000000000000000301800000000000000000000,
    2366892500000000000000000000303387500000000000000000000000002436001400000000000000000000303375000000000000000000000000002610614000000000000000000000303362500000000000000000000000002495280000000000000000000000303350000000000000000000000000002251297800000000000000000000303337500000000000000000000000002194380200000000000000000000303325000000000000000000000000002230401100000000000000000000303312500000000000000000000000002218776900000000000000000000303300000000000000000000000000002271470600000000000000000000303287500000000000000000000000002214330600000000000000000000303275000000000000000000000000002322245900000000000000000000303262500000000000000000000000002337274000000000000000000000303250000000000000000000000000002322725200000000000000000000303237500000000000000000000000002453095300000000000000000000303225000000000000000000000000002273925700000000000000000000303212500000000000000000000000002281874100000000000000000000303200000000000000000000000000002361444700000000000000000000303187500000000000000000000000002485296400000000000000000000303175000000000000000000000000002266668900000000000000000000303162500000000000000000000000002234904800000000000000000000303150000000000000000000000000002340575800000000000000000000303137500000000000000000000000002271250600000000000000000000303125000000000000000000000000002286923300000000000000000000303112500000000000000000000000002416374000000000000000000000303100000000000000000000000000002369060900000000000000000000303087500000000000000000000000002371148900000000000000000000303075000000000000000000000000002441661900000000000000000000303062500000000000000000000000002401763400000000000000000000303050000000000000000000000000002354943100000000000000000000303037500000000000000000000000002343847800000000000000000000303025000000000000000000000000002277629800000000000000000000303012500000000000000000000000002212881100000000000000000000303000000000000000000000000000002417751900000000000000000000302987500000000000000000000000002158489100000000000000000000302975000000000000000000000000002088646300000000000000000000302962500000000000000000000000002107670800000000000000000000302950000000000000000000000000002234304800000000000000000000302937500000000000000000000000002290676600000000000000000000302925000000000000000000000000002451024800000000000000000000302912500000000000000000000000002491459800000000000000000000302900000000000000000000000000002219637900000000000000000000302887500000000000000000000000002076022500000000000000000000302875000000000000000000000000002193021700000000000000000000302862500000000000000000000000002291166100000000000000000000302850000000000000000000000000002481704200000000000000000000302837500000000000000000000000002248707100000000000000000000302825000000000000000000000000002317652000000000000000000000302812500000000000000000000000002281536800000000000000000000302800000000000000000000000000002284211500000000000000000000302787500000000000000000000000002262257700000000000000000000302775000000000000000000000000002162944300000000000000000000302762500000000000000000000000002253487700000000000000000000302750000000000000000000000000002350522100000000000000000000302737500000000000000000000000002334693400000000000000000000302725000000000000000000000000002486867500000000000000000000302712500000000000000000000000002286359500000000000000000000302700000000000000000000000000002257058500000000000000000000302687500000000000000000000000002303366800000000000000000000302675000000000000000000000000002567574200000000000000000000302662500000000000000000000000002590720800000000000000000000302650000000000000000000000000002490336800000000000000000000302637500000000000000000000000002502559600000000000000000000302625000000000000000000000000002564953800000000000000000000302612500000000000000000000000002364495900000000000000000000302600000000000000000000,
    2303489700000000000000000000304187500000000000000000000000002231909100000000000000000000304175000000000000000000000000002192421200000000000000000000304162500000000000000000000000002351418300000000000000000000304150000000000000000000000000002277035500000000000000000000304137500000000000000000000000002529349100000000000000000000304125000000000000000000000000002229065500000000000000000000304112500000000000000000000000002180510100000000000000000000304100000000000000000000000000002362914700000000000000000000304087500000000000000000000000002369664900000000000000000000304075000000000000000000000000002373266000000000000000000000304062500000000000000000000000002362061300000000000000000000304050000000000000000000000000002468362700000000000000000000304037500000000000000000000000002479424100000000000000000000304025000000000000000000000000002366442700000000000000000000304012500000000000000000000000002408275200000000000000000000304000000000000000000000000000002556466200000000000000000000303987500000000000000000000000002337388700000000000000000000303975000000000000000000000000002251775200000000000000000000303962500000000000000000000000002099327800000000000000000000303950000000000000000000000000002308478800000000000000000000303937500000000000000000000000002387267800000000000000000000303925000000000000000000000000002356952400000000000000000000303912500000000000000000000000002316809700000000000000000000303900000000000000000000000000002492719800000000000000000000303887500000000000000000000000002458799400000000000000000000303875000000000000000000000000002417532500000000000000000000303862500000000000000000000000002346187000000000000000000000303850000000000000000000000000002532614300000000000000000000303837500000000000000000000000002585847200000000000000000000303825000000000000000000000000002520655200000000000000000000303812500000000000000000000000002315427200000000000000000000303800000000000000000000000000002309466000000000000000000000303787500000000000000000000000002294711500000000000000000000303775000000000000000000000000002297295500000000000000000000303762500000000000000000000000002323585200000000000000000000303750000000000000000000000000002216305300000000000000000000303737500000000000000000000000002339970400000000000000000000303725000000000000000000000000002148909100000000000000000000303712500000000000000000000000002241517900000000000000000000303700000000000000000000000000002294323300000000000000000000303687500000000000000000000000002422315700000000000000000000303675000000000000000000000000002408387100000000000000000000303662500000000000000000000000002476303900000000000000000000303650000000000000000000000000002395059900000000000000000000303637500000000000000000000000002366427600000000000000000000303625000000000000000000000000002160012400000000000000000000303612500000000000000000000000002160561900000000000000000000303600000000000000000000000000002436126400000000000000000000303587500000000000000000000000002392638200000000000000000000303575000000000000000000000000002422050800000000000000000000303562500000000000000000000000002381451100000000000000000000303550000000000000000000000000002198802400000000000000000000303537500000000000000000000000002350462700000000000000000000303525000000000000000000000000002304335300000000000000000000303512500000000000000000000000002273877700000000000000000000303500000000000000000000000000002390914000000000000000000000303487500000000000000000000000002362401200000000000000000000303475000000000000000000000000002354317500000000000000000000303462500000000000000000000000002494850900000000000000000000303450000000000000000000000000002652797100000000000000000000303437500000000000000000000000002407057500000000000000000000303425000000000000000000000000002510837600000000000000000000303412500000000000000000000000002616141500000000000000000000303400000000000000000000,
    2357427600000000000000000000304987500000000000000000000000002361140500000000000000000000304975000000000000000000000000002340020200000000000000000000304962500000000000000000000000002185592400000000000000000000304950000000000000000000000000002180687600000000000000000000304937500000000000000000000000002181994900000000000000000000304925000000000000000000000000002241507100000000000000000000304912500000000000000000000000002329202900000000000000000000304900000000000000000000000000002459751200000000000000000000304887500000000000000000000000002444961800000000000000000000304875000000000000000000000000002315734500000000000000000000304862500000000000000000000000002417778200000000000000000000304850000000000000000000000000002348129400000000000000000000304837500000000000000000000000002361214200000000000000000000304825000000000000000000000000002333573500000000000000000000304812500000000000000000000000002313891500000000000000000000304800000000000000000000000000002290112400000000000000000000304787500000000000000000000000002251727200000000000000000000304775000000000000000000000000002329248100000000000000000000304762500000000000000000000000002441375700000000000000000000304750000000000000000000000000002654428900000000000000000000304737500000000000000000000000002555954300000000000000000000304725000000000000000000000000002246160200000000000000000000304712500000000000000000000000002266698100000000000000000000304700000000000000000000000000002316526200000000000000000000304687500000000000000000000000002521871200000000000000000000304675000000000000000000000000002540076500000000000000000000304662500000000000000000000000002311729500000000000000000000304650000000000000000000000000002592484500000000000000000000304637500000000000000000000000002361476800000000000000000000304625000000000000000000000000002349358600000000000000000000304612500000000000000000000000002497610500000000000000000000304600000000000000000000000000002290278100000000000000000000304587500000000000000000000000002323586400000000000000000000304575000000000000000000000000002133624600000000000000000000304562500000000000000000000000002221752800000000000000000000304550000000000000000000000000002385258200000000000000000000304537500000000000000000000000002180963800000000000000000000304525000000000000000000000000002246195700000000000000000000304512500000000000000000000000002320682400000000000000000000304500000000000000000000000000002381444500000000000000000000304487500000000000000000000000002431543800000000000000000000304475000000000000000000000000002388797400000000000000000000304462500000000000000000000000002216474400000000000000000000304450000000000000000000000000002257455700000000000000000000304437500000000000000000000000002388013700000000000000000000304425000000000000000000000000002454468800000000000000000000304412500000000000000000000000002389035500000000000000000000304400000000000000000000000000002261431700000000000000000000304387500000000000000000000000002219648000000000000000000000304375000000000000000000000000002186649100000000000000000000304362500000000000000000000000002267405800000000000000000000304350000000000000000000000000002200120700000000000000000000304337500000000000000000000000002119701800000000000000000000304325000000000000000000000000002210086300000000000000000000304312500000000000000000000000002483705100000000000000000000304300000000000000000000000000002495417300000000000000000000304287500000000000000000000000002240217100000000000000000000304275000000000000000000000000002313729100000000000000000000304262500000000000000000000000002360358400000000000000000000304250000000000000000000000000002303656800000000000000000000304237500000000000000000000000002337222700000000000000000000304225000000000000000000000000002146732100000000000000000000304212500000000000000000000000002176213100000000000000000000304200000000000000000000,
    2360005900000000000000000000305787500000000000000000000000002419008100000000000000000000305775000000000000000000000000002428880300000000000000000000305762500000000000000000000000002519156400000000000000000000305750000000000000000000000000002559789000000000000000000000305737500000000000000000000000002295609800000000000000000000305725000000000000000000000000002210863600000000000000000000305712500000000000000000000000002192176000000000000000000000305700000000000000000000000000002526212400000000000000000000305687500000000000000000000000002441216500000000000000000000305675000000000000000000000000002446139600000000000000000000305662500000000000000000000000002572184000000000000000000000305650000000000000000000000000002423578000000000000000000000305637500000000000000000000000002278386800000000000000000000305625000000000000000000000000002296957600000000000000000000305612500000000000000000000000002414608500000000000000000000305600000000000000000000000000002434274700000000000000000000305587500000000000000000000000002126008400000000000000000000305575000000000000000000000000002165846500000000000000000000305562500000000000000000000000002373712400000000000000000000305550000000000000000000000000002489786400000000000000000000305537500000000000000000000000002432394600000000000000000000305525000000000000000000000000002376933000000000000000000000305512500000000000000000000000002447866800000000000000000000305500000000000000000000000000002521708100000000000000000000305487500000000000000000000000002409704000000000000000000000305475000000000000000000000000002279280500000000000000000000305462500000000000000000000000002144663800000000000000000000305450000000000000000000000000002269609200000000000000000000305437500000000000000000000000002228235200000000000000000000305425000000000000000000000000002221349100000000000000000000305412500000000000000000000000002225030800000000000000000000305400000000000000000000000000002290683600000000000000000000305387500000000000000000000000002333044200000000000000000000305375000000000000000000000000002358219400000000000000000000305362500000000000000000000000002432063900000000000000000000305350000000000000000000000000002235167000000000000000000000305337500000000000000000000000002266935600000000000000000000305325000000000000000000000000002484801100000000000000000000305312500000000000000000000000002324889600000000000000000000305300000000000000000000000000002206200900000000000000000000305287500000000000000000000000002118179700000000000000000000305275000000000000000000000000002291438500000000000000000000305262500000000000000000000000002536041600000000000000000000305250000000000000000000000000002339202300000000000000000000305237500000000000000000000000002250469800000000000000000000305225000000000000000000000000002274181800000000000000000000305212500000000000000000000000002290405700000000000000000000305200000000000000000000000000002326127700000000000000000000305187500000000000000000000000002296020800000000000000000000305175000000000000000000000000002282950800000000000000000000305162500000000000000000000000002433465800000000000000000000305150000000000000000000000000002530011700000000000000000000305137500000000000000000000000002373541600000000000000000000305125000000000000000000000000002507468100000000000000000000305112500000000000000000000000002427359900000000000000000000305100000000000000000000000000002576688200000000000000000000305087500000000000000000000000002245921800000000000000000000305075000000000000000000000000002206897900000000000000000000305062500000000000000000000000002390935700000000000000000000305050000000000000000000000000002344573400000000000000000000305037500000000000000000000000002503704400000000000000000000305025000000000000000000000000002406588200000000000000000000305012500000000000000000000000002329395500000000000000000000305000000000000000000000,
    2158885800000000000000000000306587500000000000000000000000002288667600000000000000000000306575000000000000000000000000002353275500000000000000000000306562500000000000000000000000002461528100000000000000000000306550000000000000000000000000002364714400000000000000000000306537500000000000000000000000002175227100000000000000000000306525000000000000000000000000002375120900000000000000000000306512500000000000000000000000002403295900000000000000000000306500000000000000000000000000002327227900000000000000000000306487500000000000000000000000002290481700000000000000000000306475000000000000000000000000002428459900000000000000000000306462500000000000000000000000002458138800000000000000000000306450000000000000000000000000002312384200000000000000000000306437500000000000000000000000002335977000000000000000000000306425000000000000000000000000002393372500000000000000000000306412500000000000000000000000002322921000000000000000000000306400000000000000000000000000002200290800000000000000000000306387500000000000000000000000002181022800000000000000000000306375000000000000000000000000002276944300000000000000000000306362500000000000000000000000002250732300000000000000000000306350000000000000000000000000002411555400000000000000000000306337500000000000000000000000002453428300000000000000000000306325000000000000000000000000002593172300000000000000000000306312500000000000000000000000002821467500000000000000000000306300000000000000000000000000002500165800000000000000000000306287500000000000000000000000002406066000000000000000000000306275000000000000000000000000002399193800000000000000000000306262500000000000000000000000002323787200000000000000000000306250000000000000000000000000002025873400000000000000000000306237500000000000000000000000001991593300000000000000000000306225000000000000000000000000002214377400000000000000000000306212500000000000000000000000002320828400000000000000000000306200000000000000000000000000002053735100000000000000000000306187500000000000000000000000002077161500000000000000000000306175000000000000000000000000002356867200000000000000000000306162500000000000000000000000002265952100000000000000000000306150000000000000000000000000002143675100000000000000000000306137500000000000000000000000002414183700000000000000000000306125000000000000000000000000002429590800000000000000000000306112500000000000000000000000002205395600000000000000000000306100000000000000000000000000002179253700000000000000000000306087500000000000000000000000002217321300000000000000000000306075000000000000000000000000002364299300000000000000000000306062500000000000000000000000002449044900000000000000000000306050000000000000000000000000002500505300000000000000000000306037500000000000000000000000002506732800000000000000000000306025000000000000000000000000002563329800000000000000000000306012500000000000000000000000002588589200000000000000000000306000000000000000000000000000002507565100000000000000000000305987500000000000000000000000002421002500000000000000000000305975000000000000000000000000002336150100000000000000000000305962500000000000000000000000002348897200000000000000000000305950000000000000000000000000002392652200000000000000000000305937500000000000000000000000002497640100000000000000000000305925000000000000000000000000002384896600000000000000000000305912500000000000000000000000002305364800000000000000000000305900000000000000000000000000002236415100000000000000000000305887500000000000000000000000002194503800000000000000000000305875000000000000000000000000002431110700000000000000000000305862500000000000000000000000002549469800000000000000000000305850000000000000000000000000002317171600000000000000000000305837500000000000000000000000002396065800000000000000000000305825000000000000000000000000002313703300000000000000000000305812500000000000000000000000002303040000000000000000000000305800000000000000000000,
    2344479500000000000000000000307387500000000000000000000000002430852600000000000000000000307375000000000000000000000000002211101300000000000000000000307362500000000000000000000000002148406000000000000000000000307350000000000000000000000000002245208200000000000000000000307337500000000000000000000000002335649600000000000000000000307325000000000000000000000000002229748100000000000000000000307312500000000000000000000000002285158000000000000000000000307300000000000000000000000000002421921200000000000000000000307287500000000000000000000000002546084900000000000000000000307275000000000000000000000000002579726500000000000000000000307262500000000000000000000000002456885500000000000000000000307250000000000000000000000000002286624200000000000000000000307237500000000000000000000000002275798200000000000000000000307225000000000000000000000000002533247300000000000000000000307212500000000000000000000000002319372300000000000000000000307200000000000000000000000000002301505300000000000000000000307187500000000000000000000000002413693800000000000000000000307175000000000000000000000000002342892400000000000000000000307162500000000000000000000000002216302600000000000000000000307150000000000000000000000000002373510100000000000000000000307137500000000000000000000000002332458100000000000000000000307125000000000000000000000000002436162500000000000000000000307112500000000000000000000000002510455300000000000000000000307100000000000000000000000000002445482600000000000000000000307087500000000000000000000000002402726400000000000000000000307075000000000000000000000000002346962000000000000000000000307062500000000000000000000000002133582400000000000000000000307050000000000000000000000000002374228600000000000000000000307037500000000000000000000000002446594300000000000000000000307025000000000000000000000000002669623200000000000000000000307012500000000000000000000000002640705000000000000000000000307000000000000000000000000000002508492100000000000000000000306987500000000000000000000000002179085900000000000000000000306975000000000000000000000000002245032300000000000000000000306962500000000000000000000000002358296100000000000000000000306950000000000000000000000000002300082800000000000000000000306937500000000000000000000000002550030000000000000000000000306925000000000000000000000000002470842200000000000000000000306912500000000000000000000000002430127000000000000000000000306900000000000000000000000000002319922000000000000000000000306887500000000000000000000000002227809200000000000000000000306875000000000000000000000000002433871100000000000000000000306862500000000000000000000000002427635900000000000000000000306850000000000000000000000000002225144600000000000000000000306837500000000000000000000000002269242900000000000000000000306825000000000000000000000000002441728400000000000000000000306812500000000000000000000000002387007800000000000000000000306800000000000000000000000000002215388700000000000000000000306787500000000000000000000000002323210500000000000000000000306775000000000000000000000000002279873500000000000000000000306762500000000000000000000000002311739800000000000000000000306750000000000000000000000000002311451500000000000000000000306737500000000000000000000000002407725000000000000000000000306725000000000000000000000000002336733200000000000000000000306712500000000000000000000000002446828000000000000000000000306700000000000000000000000000002404907500000000000000000000306687500000000000000000000000002428334200000000000000000000306675000000000000000000000000002408407300000000000000000000306662500000000000000000000000002290266500000000000000000000306650000000000000000000000000002382051100000000000000000000306637500000000000000000000000002462279500000000000000000000306625000000000000000000000000002262140700000000000000000000306612500000000000000000000000002150833200000000000000000000306600000000000000000000,
    2526676900000000000000000000308187500000000000000000000000002436318600000000000000000000308175000000000000000000000000002195539200000000000000000000308162500000000000000000000000002297171600000000000000000000308150000000000000000000000000002350975400000000000000000000308137500000000000000000000000002302758500000000000000000000308125000000000000000000000000002384790000000000000000000000308112500000000000000000000000002296221700000000000000000000308100000000000000000000000000002250618500000000000000000000308087500000000000000000000000002278720700000000000000000000308075000000000000000000000000002365507700000000000000000000308062500000000000000000000000002334535400000000000000000000308050000000000000000000000000002298505700000000000000000000308037500000000000000000000000002182124000000000000000000000308025000000000000000000000000002336485400000000000000000000308012500000000000000000000000002432606400000000000000000000308000000000000000000000000000002343392700000000000000000000307987500000000000000000000000002285619900000000000000000000307975000000000000000000000000002321651700000000000000000000307962500000000000000000000000002393570700000000000000000000307950000000000000000000000000002403381200000000000000000000307937500000000000000000000000002402831100000000000000000000307925000000000000000000000000002252748700000000000000000000307912500000000000000000000000002318680300000000000000000000307900000000000000000000000000002404154000000000000000000000307887500000000000000000000000002495685100000000000000000000307875000000000000000000000000002473726100000000000000000000307862500000000000000000000000002293690000000000000000000000307850000000000000000000000000002339658600000000000000000000307837500000000000000000000000002305359500000000000000000000307825000000000000000000000000002407066800000000000000000000307812500000000000000000000000002297074400000000000000000000307800000000000000000000000000002303054900000000000000000000307787500000000000000000000000002242112900000000000000000000307775000000000000000000000000002328604900000000000000000000307762500000000000000000000000002391335200000000000000000000307750000000000000000000000000002366315600000000000000000000307737500000000000000000000000002258713800000000000000000000307725000000000000000000000000002376261700000000000000000000307712500000000000000000000000002108937300000000000000000000307700000000000000000000000000002112443100000000000000000000307687500000000000000000000000002163045600000000000000000000307675000000000000000000000000002305249600000000000000000000307662500000000000000000000000002394839500000000000000000000307650000000000000000000000000002595247500000000000000000000307637500000000000000000000000002408467400000000000000000000307625000000000000000000000000002331849200000000000000000000307612500000000000000000000000002553313400000000000000000000307600000000000000000000000000002540329800000000000000000000307587500000000000000000000000002445467600000000000000000000307575000000000000000000000000002363469300000000000000000000307562500000000000000000000000002380644200000000000000000000307550000000000000000000000000002492686500000000000000000000307537500000000000000000000000002361912900000000000000000000307525000000000000000000000000002330650400000000000000000000307512500000000000000000000000002329405200000000000000000000307500000000000000000000000000002302505200000000000000000000307487500000000000000000000000002221300700000000000000000000307475000000000000000000000000002271202700000000000000000000307462500000000000000000000000002503388000000000000000000000307450000000000000000000000000002382673300000000000000000000307437500000000000000000000000002389786000000000000000000000307425000000000000000000000000002294836700000000000000000000307412500000000000000000000000002339200000000000000000000000307400000000000000000000,
    2156045100000000000000000000308987500000000000000000000000002408053800000000000000000000308975000000000000000000000000002334026500000000000000000000308962500000000000000000000000002302042800000000000000000000308950000000000000000000000000002405546500000000000000000000308937500000000000000000000000002675228000000000000000000000308925000000000000000000000000002516744600000000000000000000308912500000000000000000000000002391449600000000000000000000308900000000000000000000000000002180893800000000000000000000308887500000000000000000000000002251040800000000000000000000308875000000000000000000000000002454007300000000000000000000308862500000000000000000000000002409687900000000000000000000308850000000000000000000000000002325219900000000000000000000308837500000000000000000000000002146174600000000000000000000308825000000000000000000000000002283876000000000000000000000308812500000000000000000000000002385640200000000000000000000308800000000000000000000000000002369987800000000000000000000308787500000000000000000000000002179229500000000000000000000308775000000000000000000000000002375093800000000000000000000308762500000000000000000000000002284711400000000000000000000308750000000000000000000000000002362055700000000000000000000308737500000000000000000000000002342150100000000000000000000308725000000000000000000000000002416409500000000000000000000308712500000000000000000000000002461059600000000000000000000308700000000000000000000000000002482930100000000000000000000308687500000000000000000000000002272949700000000000000000000308675000000000000000000000000002451579400000000000000000000308662500000000000000000000000002368096100000000000000000000308650000000000000000000000000002212814800000000000000000000308637500000000000000000000000002229598700000000000000000000308625000000000000000000000000002302208500000000000000000000308612500000000000000000000000002297938600000000000000000000308600000000000000000000000000002432161000000000000000000000308587500000000000000000000000002337812200000000000000000000308575000000000000000000000000002425867600000000000000000000308562500000000000000000000000002429696400000000000000000000308550000000000000000000000000002482350800000000000000000000308537500000000000000000000000002370882100000000000000000000308525000000000000000000000000002462141000000000000000000000308512500000000000000000000000002519399500000000000000000000308500000000000000000000000000002488930600000000000000000000308487500000000000000000000000002462383600000000000000000000308475000000000000000000000000002369049500000000000000000000308462500000000000000000000000002402940600000000000000000000308450000000000000000000000000002378434300000000000000000000308437500000000000000000000000002407515500000000000000000000308425000000000000000000000000002466412300000000000000000000308412500000000000000000000000002232565000000000000000000000308400000000000000000000000000002321852200000000000000000000308387500000000000000000000000002389379200000000000000000000308375000000000000000000000000002177075200000000000000000000308362500000000000000000000000002194128700000000000000000000308350000000000000000000000000002358075500000000000000000000308337500000000000000000000000002229572400000000000000000000308325000000000000000000000000002087373700000000000000000000308312500000000000000000000000002339648000000000000000000000308300000000000000000000000000002338783200000000000000000000308287500000000000000000000000002278420800000000000000000000308275000000000000000000000000002316779900000000000000000000308262500000000000000000000000002311075300000000000000000000308250000000000000000000000000002293887300000000000000000000308237500000000000000000000000002203334400000000000000000000308225000000000000000000000000002291686200000000000000000000308212500000000000000000000000002365138600000000000000000000308200000000000000000000,
    2320183900000000000000000000309787500000000000000000000000002352331500000000000000000000309775000000000000000000000000002387725800000000000000000000309762500000000000000000000000002335143200000000000000000000309750000000000000000000000000002461101900000000000000000000309737500000000000000000000000002303379300000000000000000000309725000000000000000000000000002250420000000000000000000000309712500000000000000000000000002370894100000000000000000000309700000000000000000000000000002384121800000000000000000000309687500000000000000000000000002320048400000000000000000000309675000000000000000000000000002363863400000000000000000000309662500000000000000000000000002313862900000000000000000000309650000000000000000000000000002426757800000000000000000000309637500000000000000000000000002437997100000000000000000000309625000000000000000000000000002527650500000000000000000000309612500000000000000000000000002369447600000000000000000000309600000000000000000000000000002274721000000000000000000000309587500000000000000000000000002223594700000000000000000000309575000000000000000000000000002305325600000000000000000000309562500000000000000000000000002507821300000000000000000000309550000000000000000000000000002683923100000000000000000000309537500000000000000000000000002453508000000000000000000000309525000000000000000000000000002270740600000000000000000000309512500000000000000000000000002349229100000000000000000000309500000000000000000000000000002249071600000000000000000000309487500000000000000000000000002268778400000000000000000000309475000000000000000000000000002415283600000000000000000000309462500000000000000000000000002551034700000000000000000000309450000000000000000000000000002308690900000000000000000000309437500000000000000000000000002178528000000000000000000000309425000000000000000000000000002404540700000000000000000000309412500000000000000000000000002522412000000000000000000000309400000000000000000000000000002662578000000000000000000000309387500000000000000000000000002419459500000000000000000000309375000000000000000000000000002278047300000000000000000000309362500000000000000000000000002233337800000000000000000000309350000000000000000000000000002334496500000000000000000000309337500000000000000000000000002451287300000000000000000000309325000000000000000000000000002261074400000000000000000000309312500000000000000000000000002258625700000000000000000000309300000000000000000000000000002363114600000000000000000000309287500000000000000000000000002470216300000000000000000000309275000000000000000000000000002621852900000000000000000000309262500000000000000000000000002468034600000000000000000000309250000000000000000000000000002414093000000000000000000000309237500000000000000000000000002416085100000000000000000000309225000000000000000000000000002278209200000000000000000000309212500000000000000000000000002216701400000000000000000000309200000000000000000000000000002338054600000000000000000000309187500000000000000000000000002281248900000000000000000000309175000000000000000000000000002194582800000000000000000000309162500000000000000000000000002166562600000000000000000000309150000000000000000000000000002129041600000000000000000000309137500000000000000000000000002223259400000000000000000000309125000000000000000000000000002347509700000000000000000000309112500000000000000000000000002375651000000000000000000000309100000000000000000000000000002476678000000000000000000000309087500000000000000000000000002309503400000000000000000000309075000000000000000000000000002332049900000000000000000000309062500000000000000000000000002393151200000000000000000000309050000000000000000000000000002256701800000000000000000000309037500000000000000000000000002055631800000000000000000000309025000000000000000000000000002232117100000000000000000000309012500000000000000000000000002095648700000000000000000000309000000000000000000000,
    2292859300000000000000000000310587500000000000000000000000002243792400000000000000000000310575000000000000000000000000002156362300000000000000000000310562500000000000000000000000002375465900000000000000000000310550000000000000000000000000002330079600000000000000000000310537500000000000000000000000002504003300000000000000000000310525000000000000000000000000002453703800000000000000000000310512500000000000000000000000002414541500000000000000000000310500000000000000000000000000002398163400000000000000000000310487500000000000000000000000002281585800000000000000000000310475000000000000000000000000002251079300000000000000000000310462500000000000000000000000002416784400000000000000000000310450000000000000000000000000002441811800000000000000000000310437500000000000000000000000002425961300000000000000000000310425000000000000000000000000002380902100000000000000000000310412500000000000000000000000002287005600000000000000000000310400000000000000000000000000002272903500000000000000000000310387500000000000000000000000002376368600000000000000000000310375000000000000000000000000002324434700000000000000000000310362500000000000000000000000002279837800000000000000000000310350000000000000000000000000002419489200000000000000000000310337500000000000000000000000002445281100000000000000000000310325000000000000000000000000002337502800000000000000000000310312500000000000000000000000002279150200000000000000000000310300000000000000000000000000002338325000000000000000000000310287500000000000000000000000002220744500000000000000000000310275000000000000000000000000002444986800000000000000000000310262500000000000000000000000002462397400000000000000000000310250000000000000000000000000002257580300000000000000000000310237500000000000000000000000002366490500000000000000000000310225000000000000000000000000002382208600000000000000000000310212500000000000000000000000002283318500000000000000000000310200000000000000000000000000002308643000000000000000000000310187500000000000000000000000002331008100000000000000000000310175000000000000000000000000002428216300000000000000000000310162500000000000000000000000002340699600000000000000000000310150000000000000000000000000002216601700000000000000000000310137500000000000000000000000002390906400000000000000000000310125000000000000000000000000002478058600000000000000000000310112500000000000000000000000002200544000000000000000000000310100000000000000000000000000002413767900000000000000000000310087500000000000000000000000002472522500000000000000000000310075000000000000000000000000002297020500000000000000000000310062500000000000000000000000002540247800000000000000000000310050000000000000000000000000002407588200000000000000000000310037500000000000000000000000002305245300000000000000000000310025000000000000000000000000002331201200000000000000000000310012500000000000000000000000002323200800000000000000000000310000000000000000000000000000002374807100000000000000000000309987500000000000000000000000002583088500000000000000000000309975000000000000000000000000002372457700000000000000000000309962500000000000000000000000002318674400000000000000000000309950000000000000000000000000002240629300000000000000000000309937500000000000000000000000002235224500000000000000000000309925000000000000000000000000002272864800000000000000000000309912500000000000000000000000002452299400000000000000000000309900000000000000000000000000002307918800000000000000000000309887500000000000000000000000002144488900000000000000000000309875000000000000000000000000002342357600000000000000000000309862500000000000000000000000002404756400000000000000000000309850000000000000000000000000002288252500000000000000000000309837500000000000000000000000002320090600000000000000000000309825000000000000000000000000002393920800000000000000000000309812500000000000000000000000002354324100000000000000000000309800000000000000000000,
    2256922300000000000000000000311387500000000000000000000000002252184600000000000000000000311375000000000000000000000000002501315200000000000000000000311362500000000000000000000000002313209200000000000000000000311350000000000000000000000000002358888400000000000000000000311337500000000000000000000000002491059000000000000000000000311325000000000000000000000000002422308100000000000000000000311312500000000000000000000000002355606000000000000000000000311300000000000000000000000000002346660900000000000000000000311287500000000000000000000000002162174000000000000000000000311275000000000000000000000000002281543400000000000000000000311262500000000000000000000000002232435100000000000000000000311250000000000000000000000000002128800200000000000000000000311237500000000000000000000000002356100700000000000000000000311225000000000000000000000000002332816100000000000000000000311212500000000000000000000000002416060000000000000000000000311200000000000000000000000000002496178600000000000000000000311187500000000000000000000000002559050100000000000000000000311175000000000000000000000000002337245300000000000000000000311162500000000000000000000000002283516300000000000000000000311150000000000000000000000000002620001700000000000000000000311137500000000000000000000000002614573000000000000000000000311125000000000000000000000000002403196500000000000000000000311112500000000000000000000000002288939000000000000000000000311100000000000000000000000000002443925900000000000000000000311087500000000000000000000000002308530800000000000000000000311075000000000000000000000000002421133200000000000000000000311062500000000000000000000000002305270500000000000000000000311050000000000000000000000000002389927300000000000000000000311037500000000000000000000000002477177200000000000000000000311025000000000000000000000000002362131100000000000000000000311012500000000000000000000000002303642800000000000000000000311000000000000000000000000000002315770400000000000000000000310987500000000000000000000000002425258500000000000000000000310975000000000000000000000000002527637800000000000000000000310962500000000000000000000000002251084500000000000000000000310950000000000000000000000000002449528800000000000000000000310937500000000000000000000000002453197000000000000000000000310925000000000000000000000000002318178600000000000000000000310912500000000000000000000000002286777600000000000000000000310900000000000000000000000000002355647200000000000000000000310887500000000000000000000000002308960700000000000000000000310875000000000000000000000000002391226800000000000000000000310862500000000000000000000000002417342700000000000000000000310850000000000000000000000000002218403200000000000000000000310837500000000000000000000000002355586100000000000000000000310825000000000000000000000000002402545800000000000000000000310812500000000000000000000000002355468200000000000000000000310800000000000000000000000000002580810900000000000000000000310787500000000000000000000000002459570100000000000000000000310775000000000000000000000000002307886800000000000000000000310762500000000000000000000000002390088400000000000000000000310750000000000000000000000000002378653600000000000000000000310737500000000000000000000000002361683800000000000000000000310725000000000000000000000000002493128200000000000000000000310712500000000000000000000000002329029700000000000000000000310700000000000000000000000000002417442100000000000000000000310687500000000000000000000000002363875000000000000000000000310675000000000000000000000000002282399700000000000000000000310662500000000000000000000000002363376200000000000000000000310650000000000000000000000000002231174800000000000000000000310637500000000000000000000000002371547600000000000000000000310625000000000000000000000000002475451700000000000000000000310612500000000000000000000000002251951800000000000000000000310600000000000000000000,
    2407183300000000000000000000312187500000000000000000000000002407363000000000000000000000312175000000000000000000000000002308956400000000000000000000312162500000000000000000000000002311876000000000000000000000312150000000000000000000000000002311300600000000000000000000312137500000000000000000000000002449067000000000000000000000312125000000000000000000000000002549465300000000000000000000312112500000000000000000000000002296478300000000000000000000312100000000000000000000000000002336050000000000000000000000312087500000000000000000000000002449624200000000000000000000312075000000000000000000000000002379946700000000000000000000312062500000000000000000000000002480529700000000000000000000312050000000000000000000000000002419303400000000000000000000312037500000000000000000000000002296507600000000000000000000312025000000000000000000000000002347202400000000000000000000312012500000000000000000000000002567695700000000000000000000312000000000000000000000000000002418114500000000000000000000311987500000000000000000000000002396206600000000000000000000311975000000000000000000000000002273289800000000000000000000311962500000000000000000000000002256350900000000000000000000311950000000000000000000000000002256447300000000000000000000311937500000000000000000000000002382385900000000000000000000311925000000000000000000000000002268136000000000000000000000311912500000000000000000000000002313541100000000000000000000311900000000000000000000000000002520262400000000000000000000311887500000000000000000000000002424365500000000000000000000311875000000000000000000000000002272794300000000000000000000311862500000000000000000000000002157138900000000000000000000311850000000000000000000000000002269776000000000000000000000311837500000000000000000000000002317083800000000000000000000311825000000000000000000000000002195863100000000000000000000311812500000000000000000000000002261135000000000000000000000311800000000000000000000000000002362286600000000000000000000311787500000000000000000000000002289688600000000000000000000311775000000000000000000000000002198863900000000000000000000311762500000000000000000000000002377559000000000000000000000311750000000000000000000000000002203818500000000000000000000311737500000000000000000000000002305820000000000000000000000311725000000000000000000000000002264653700000000000000000000311712500000000000000000000000002310646800000000000000000000311700000000000000000000000000002444062400000000000000000000311687500000000000000000000000002330832600000000000000000000311675000000000000000000000000002349129300000000000000000000311662500000000000000000000000002439872900000000000000000000311650000000000000000000000000002465844100000000000000000000311637500000000000000000000000002359899700000000000000000000311625000000000000000000000000002423617900000000000000000000311612500000000000000000000000002412724600000000000000000000311600000000000000000000000000002504971400000000000000000000311587500000000000000000000000002429646300000000000000000000311575000000000000000000000000002328301800000000000000000000311562500000000000000000000000002671552700000000000000000000311550000000000000000000000000002505367600000000000000000000311537500000000000000000000000002396006600000000000000000000311525000000000000000000000000002359348500000000000000000000311512500000000000000000000000002275773800000000000000000000311500000000000000000000000000002421435000000000000000000000311487500000000000000000000000002271266500000000000000000000311475000000000000000000000000002368052500000000000000000000311462500000000000000000000000002353439500000000000000000000311450000000000000000000000000002340663000000000000000000000311437500000000000000000000000002441187800000000000000000000311425000000000000000000000000002457961400000000000000000000311412500000000000000000000000002354900300000000000000000000311400000000000000000000,
    2198490600000000000000000000312987500000000000000000000000002365067100000000000000000000312975000000000000000000000000002509358600000000000000000000312962500000000000000000000000002522627200000000000000000000312950000000000000000000000000002520590000000000000000000000312937500000000000000000000000002477445700000000000000000000312925000000000000000000000000002594535500000000000000000000312912500000000000000000000000002521060500000000000000000000312900000000000000000000000000002606519400000000000000000000312887500000000000000000000000002659936200000000000000000000312875000000000000000000000000002405632400000000000000000000312862500000000000000000000000002314326700000000000000000000312850000000000000000000000000002361217000000000000000000000312837500000000000000000000000002405399100000000000000000000312825000000000000000000000000002264448800000000000000000000312812500000000000000000000000002117575200000000000000000000312800000000000000000000000000002367972000000000000000000000312787500000000000000000000000002643497800000000000000000000312775000000000000000000000000002379917100000000000000000000312762500000000000000000000000002409795200000000000000000000312750000000000000000000000000002535257300000000000000000000312737500000000000000000000000002636544800000000000000000000312725000000000000000000000000002679285300000000000000000000312712500000000000000000000000002480714700000000000000000000312700000000000000000000000000002505034000000000000000000000312687500000000000000000000000002480579900000000000000000000312675000000000000000000000000002480000100000000000000000000312662500000000000000000000000002465200600000000000000000000312650000000000000000000000000002445549800000000000000000000312637500000000000000000000000002335887400000000000000000000312625000000000000000000000000002500139400000000000000000000312612500000000000000000000000002335458500000000000000000000312600000000000000000000000000002376816100000000000000000000312587500000000000000000000000002445236100000000000000000000312575000000000000000000000000002389518400000000000000000000312562500000000000000000000000002223735400000000000000000000312550000000000000000000000000002284674700000000000000000000312537500000000000000000000000002353323400000000000000000000312525000000000000000000000000002553505600000000000000000000312512500000000000000000000000002407502100000000000000000000312500000000000000000000000000002275517300000000000000000000312487500000000000000000000000002225905600000000000000000000312475000000000000000000000000002385119600000000000000000000312462500000000000000000000000002356397100000000000000000000312450000000000000000000000000002105598000000000000000000000312437500000000000000000000000002218140100000000000000000000312425000000000000000000000000002281419800000000000000000000312412500000000000000000000000002252983700000000000000000000312400000000000000000000000000002191678700000000000000000000312387500000000000000000000000002296470500000000000000000000312375000000000000000000000000002283426600000000000000000000312362500000000000000000000000002401795900000000000000000000312350000000000000000000000000002548835500000000000000000000312337500000000000000000000000002597658500000000000000000000312325000000000000000000000000002359619700000000000000000000312312500000000000000000000000002353216600000000000000000000312300000000000000000000000000002261569000000000000000000000312287500000000000000000000000002376817900000000000000000000312275000000000000000000000000002376495500000000000000000000312262500000000000000000000000002208865000000000000000000000312250000000000000000000000000002457758200000000000000000000312237500000000000000000000000002436462800000000000000000000312225000000000000000000000000002455903000000000000000000000312212500000000000000000000000002443455300000000000000000000312200000000000000000000,
    2475614400000000000000000000313787500000000000000000000000002394423900000000000000000000313775000000000000000000000000002401092800000000000000000000313762500000000000000000000000002450667500000000000000000000313750000000000000000000000000002314958000000000000000000000313737500000000000000000000000002228604300000000000000000000313725000000000000000000000000002527323900000000000000000000313712500000000000000000000000002384186300000000000000000000313700000000000000000000000000002249956700000000000000000000313687500000000000000000000000002522832600000000000000000000313675000000000000000000000000002548392000000000000000000000313662500000000000000000000000002674113200000000000000000000313650000000000000000000000000002512573600000000000000000000313637500000000000000000000000002370364300000000000000000000313625000000000000000000000000002461325000000000000000000000313612500000000000000000000000002444728000000000000000000000313600000000000000000000000000002497362600000000000000000000313587500000000000000000000000002534815900000000000000000000313575000000000000000000000000002511666500000000000000000000313562500000000000000000000000002515207200000000000000000000313550000000000000000000000000002708915000000000000000000000313537500000000000000000000000002667562100000000000000000000313525000000000000000000000000002499714600000000000000000000313512500000000000000000000000002367587500000000000000000000313500000000000000000000000000002367761600000000000000000000313487500000000000000000000000002662908800000000000000000000313475000000000000000000000000002712742200000000000000000000313462500000000000000000000000002453063400000000000000000000313450000000000000000000000000002414910800000000000000000000313437500000000000000000000000002446049900000000000000000000313425000000000000000000000000002331178100000000000000000000313412500000000000000000000000002369836200000000000000000000313400000000000000000000000000002640258500000000000000000000313387500000000000000000000000002551770500000000000000000000313375000000000000000000000000002234801200000000000000000000313362500000000000000000000000002194401300000000000000000000313350000000000000000000000000002398955200000000000000000000313337500000000000000000000000002460257700000000000000000000313325000000000000000000000000002465546300000000000000000000313312500000000000000000000000002535438700000000000000000000313300000000000000000000000000002462679300000000000000000000313287500000000000000000000000002490886900000000000000000000313275000000000000000000000000002516313400000000000000000000313262500000000000000000000000002350821300000000000000000000313250000000000000000000000000002333007200000000000000000000313237500000000000000000000000002331550000000000000000000000313225000000000000000000000000002264127100000000000000000000313212500000000000000000000000002529398600000000000000000000313200000000000000000000000000002516019100000000000000000000313187500000000000000000000000002311017500000000000000000000313175000000000000000000000000002119124100000000000000000000313162500000000000000000000000002388257000000000000000000000313150000000000000000000000000002504271600000000000000000000313137500000000000000000000000002541142500000000000000000000313125000000000000000000000000002355680300000000000000000000313112500000000000000000000000002538246200000000000000000000313100000000000000000000000000002440646800000000000000000000313087500000000000000000000000002289457100000000000000000000313075000000000000000000000000002426239500000000000000000000313062500000000000000000000000002460894400000000000000000000313050000000000000000000000000002212837400000000000000000000313037500000000000000000000000002049229400000000000000000000313025000000000000000000000000002289921600000000000000000000313012500000000000000000000000002366653100000000000000000000313000000000000000000000,
    2422898600000000000000000000314587500000000000000000000000002477108900000000000000000000314575000000000000000000000000002439017100000000000000000000314562500000000000000000000000002356989600000000000000000000314550000000000000000000000000002217413000000000000000000000314537500000000000000000000000002292938000000000000000000000314525000000000000000000000000002295643400000000000000000000314512500000000000000000000000002316544700000000000000000000314500000000000000000000000000002361698000000000000000000000314487500000000000000000000000002275677600000000000000000000314475000000000000000000000000002373158700000000000000000000314462500000000000000000000000002496531000000000000000000000314450000000000000000000000000002560384200000000000000000000314437500000000000000000000000002381546100000000000000000000314425000000000000000000000000002355692200000000000000000000314412500000000000000000000000002494562300000000000000000000314400000000000000000000000000002528494300000000000000000000314387500000000000000000000000002536516800000000000000000000314375000000000000000000000000002380339100000000000000000000314362500000000000000000000000002287039800000000000000000000314350000000000000000000000000002182493800000000000000000000314337500000000000000000000000002418635400000000000000000000314325000000000000000000000000002280487800000000000000000000314312500000000000000000000000002330928000000000000000000000314300000000000000000000000000002604750200000000000000000000314287500000000000000000000000002646737100000000000000000000314275000000000000000000000000002570665900000000000000000000314262500000000000000000000000002330497200000000000000000000314250000000000000000000000000002222151000000000000000000000314237500000000000000000000000002390829500000000000000000000314225000000000000000000000000002383514300000000000000000000314212500000000000000000000000002613832000000000000000000000314200000000000000000000000000002572156000000000000000000000314187500000000000000000000000002277778600000000000000000000314175000000000000000000000000002382537500000000000000000000314162500000000000000000000000002489367300000000000000000000314150000000000000000000000000002541844800000000000000000000314137500000000000000000000000002417898200000000000000000000314125000000000000000000000000002498895000000000000000000000314112500000000000000000000000002399839300000000000000000000314100000000000000000000000000002419890800000000000000000000314087500000000000000000000000002364827800000000000000000000314075000000000000000000000000002392868800000000000000000000314062500000000000000000000000002363649800000000000000000000314050000000000000000000000000002413223400000000000000000000314037500000000000000000000000002384615100000000000000000000314025000000000000000000000000002342034500000000000000000000314012500000000000000000000000002469330800000000000000000000314000000000000000000000000000002299638200000000000000000000313987500000000000000000000000002269135200000000000000000000313975000000000000000000000000002509098200000000000000000000313962500000000000000000000000002488993900000000000000000000313950000000000000000000000000002283540500000000000000000000313937500000000000000000000000002419623600000000000000000000313925000000000000000000000000002263628000000000000000000000313912500000000000000000000000002304446300000000000000000000313900000000000000000000000000002400399200000000000000000000313887500000000000000000000000002417457600000000000000000000313875000000000000000000000000002250896300000000000000000000313862500000000000000000000000002398398300000000000000000000313850000000000000000000000000002478058400000000000000000000313837500000000000000000000000002384792900000000000000000000313825000000000000000000000000002358165700000000000000000000313812500000000000000000000000002355584500000000000000000000313800000000000000000000,
    2436852000000000000000000000315387500000000000000000000000002451532700000000000000000000315375000000000000000000000000002450250100000000000000000000315362500000000000000000000000002239470600000000000000000000315350000000000000000000000000002070260400000000000000000000315337500000000000000000000000002257794100000000000000000000315325000000000000000000000000002581467400000000000000000000315312500000000000000000000000002403262800000000000000000000315300000000000000000000000000002296636600000000000000000000315287500000000000000000000000002449402500000000000000000000315275000000000000000000000000002479148200000000000000000000315262500000000000000000000000002376418200000000000000000000315250000000000000000000000000002232577300000000000000000000315237500000000000000000000000002271026200000000000000000000315225000000000000000000000000002371634000000000000000000000315212500000000000000000000000002418542700000000000000000000315200000000000000000000000000002356252100000000000000000000315187500000000000000000000000002194040200000000000000000000315175000000000000000000000000002338147200000000000000000000315162500000000000000000000000002395130500000000000000000000315150000000000000000000000000002531381700000000000000000000315137500000000000000000000000002692893900000000000000000000315125000000000000000000000000002633439500000000000000000000315112500000000000000000000000002562590800000000000000000000315100000000000000000000000000002562895700000000000000000000315087500000000000000000000000002564936500000000000000000000315075000000000000000000000000002440866800000000000000000000315062500000000000000000000000002308011300000000000000000000315050000000000000000000000000002280619400000000000000000000315037500000000000000000000000002267464400000000000000000000315025000000000000000000000000002236692700000000000000000000315012500000000000000000000000002203046400000000000000000000315000000000000000000000000000002354782900000000000000000000314987500000000000000000000000002385886300000000000000000000314975000000000000000000000000002496087800000000000000000000314962500000000000000000000000002278313900000000000000000000314950000000000000000000000000002236367700000000000000000000314937500000000000000000000000002374702500000000000000000000314925000000000000000000000000002375890600000000000000000000314912500000000000000000000000002373398300000000000000000000314900000000000000000000000000002246359900000000000000000000314887500000000000000000000000002269061000000000000000000000314875000000000000000000000000002363564300000000000000000000314862500000000000000000000000002310570300000000000000000000314850000000000000000000000000002448373900000000000000000000314837500000000000000000000000002529003800000000000000000000314825000000000000000000000000002382221900000000000000000000314812500000000000000000000000002207134100000000000000000000314800000000000000000000000000002089833100000000000000000000314787500000000000000000000000002409230100000000000000000000314775000000000000000000000000002638914100000000000000000000314762500000000000000000000000002653925100000000000000000000314750000000000000000000000000002566081700000000000000000000314737500000000000000000000000002491504800000000000000000000314725000000000000000000000000002467949100000000000000000000314712500000000000000000000000002434237500000000000000000000314700000000000000000000000000002184189800000000000000000000314687500000000000000000000000002267451100000000000000000000314675000000000000000000000000002371686200000000000000000000314662500000000000000000000000002456917100000000000000000000314650000000000000000000000000002357108500000000000000000000314637500000000000000000000000002152333600000000000000000000314625000000000000000000000000002352040800000000000000000000314612500000000000000000000000002590344900000000000000000000314600000000000000000000,
    2417183200000000000000000000316187500000000000000000000000002493691500000000000000000000316175000000000000000000000000002469835500000000000000000000316162500000000000000000000000002426730600000000000000000000316150000000000000000000000000002431642500000000000000000000316137500000000000000000000000002344559400000000000000000000316125000000000000000000000000002578145000000000000000000000316112500000000000000000000000002567224700000000000000000000316100000000000000000000000000002578337100000000000000000000316087500000000000000000000000002335288100000000000000000000316075000000000000000000000000002394698600000000000000000000316062500000000000000000000000002339892700000000000000000000316050000000000000000000000000002286648800000000000000000000316037500000000000000000000000002223267500000000000000000000316025000000000000000000000000002404666000000000000000000000316012500000000000000000000000002454335900000000000000000000316000000000000000000000000000002453688100000000000000000000315987500000000000000000000000002386946400000000000000000000315975000000000000000000000000002298892000000000000000000000315962500000000000000000000000002362308600000000000000000000315950000000000000000000000000002286389500000000000000000000315937500000000000000000000000002272231500000000000000000000315925000000000000000000000000002402148600000000000000000000315912500000000000000000000000002399878400000000000000000000315900000000000000000000000000002417119400000000000000000000315887500000000000000000000000002395805300000000000000000000315875000000000000000000000000002500813800000000000000000000315862500000000000000000000000002465261200000000000000000000315850000000000000000000000000002384954700000000000000000000315837500000000000000000000000002321445000000000000000000000315825000000000000000000000000002184387900000000000000000000315812500000000000000000000000002315388400000000000000000000315800000000000000000000000000002558458000000000000000000000315787500000000000000000000000002538781500000000000000000000315775000000000000000000000000002399089800000000000000000000315762500000000000000000000000002509478000000000000000000000315750000000000000000000000000002660004400000000000000000000315737500000000000000000000000002431415200000000000000000000315725000000000000000000000000002248963500000000000000000000315712500000000000000000000000002231769800000000000000000000315700000000000000000000000000002334064700000000000000000000315687500000000000000000000000002621576700000000000000000000315675000000000000000000000000002695162000000000000000000000315662500000000000000000000000002685046800000000000000000000315650000000000000000000000000002543619500000000000000000000315637500000000000000000000000002378059400000000000000000000315625000000000000000000000000002371172000000000000000000000315612500000000000000000000000002550967900000000000000000000315600000000000000000000000000002643949700000000000000000000315587500000000000000000000000002599113200000000000000000000315575000000000000000000000000002532248300000000000000000000315562500000000000000000000000002376195200000000000000000000315550000000000000000000000000002453986000000000000000000000315537500000000000000000000000002655240200000000000000000000315525000000000000000000000000002606779400000000000000000000315512500000000000000000000000002365525400000000000000000000315500000000000000000000000000002482983000000000000000000000315487500000000000000000000000002581194300000000000000000000315475000000000000000000000000002382623400000000000000000000315462500000000000000000000000002376634400000000000000000000315450000000000000000000000000002312650600000000000000000000315437500000000000000000000000002472047200000000000000000000315425000000000000000000000000002588832900000000000000000000315412500000000000000000000000002508713200000000000000000000315400000000000000000000,
    2536335200000000000000000000316987500000000000000000000000002623553600000000000000000000316975000000000000000000000000002439430300000000000000000000316962500000000000000000000000002315343100000000000000000000316950000000000000000000000000002425320000000000000000000000316937500000000000000000000000002271078100000000000000000000316925000000000000000000000000002290414600000000000000000000316912500000000000000000000000002298447000000000000000000000316900000000000000000000000000002410709200000000000000000000316887500000000000000000000000002350483500000000000000000000316875000000000000000000000000002332373100000000000000000000316862500000000000000000000000002308172800000000000000000000316850000000000000000000000000002297731900000000000000000000316837500000000000000000000000002358681600000000000000000000316825000000000000000000000000002365147300000000000000000000316812500000000000000000000000002495082600000000000000000000316800000000000000000000000000002417535400000000000000000000316787500000000000000000000000002356024000000000000000000000316775000000000000000000000000002440667000000000000000000000316762500000000000000000000000002464975800000000000000000000316750000000000000000000000000002382899500000000000000000000316737500000000000000000000000002533000200000000000000000000316725000000000000000000000000002661456300000000000000000000316712500000000000000000000000002451820800000000000000000000316700000000000000000000000000002366366600000000000000000000316687500000000000000000000000002470491600000000000000000000316675000000000000000000000000002522457600000000000000000000316662500000000000000000000000002433298800000000000000000000316650000000000000000000000000002446745300000000000000000000316637500000000000000000000000002496213700000000000000000000316625000000000000000000000000002407463900000000000000000000316612500000000000000000000000002375582200000000000000000000316600000000000000000000000000002369309000000000000000000000316587500000000000000000000000002382940200000000000000000000316575000000000000000000000000002589287300000000000000000000316562500000000000000000000000002467840900000000000000000000316550000000000000000000000000002565290800000000000000000000316537500000000000000000000000002560582700000000000000000000316525000000000000000000000000002249843300000000000000000000316512500000000000000000000000002353170500000000000000000000316500000000000000000000000000002255554200000000000000000000316487500000000000000000000000002140007300000000000000000000316475000000000000000000000000002259694400000000000000000000316462500000000000000000000000002383013200000000000000000000316450000000000000000000000000002368617800000000000000000000316437500000000000000000000000002239155200000000000000000000316425000000000000000000000000002377986700000000000000000000316412500000000000000000000000002406799700000000000000000000316400000000000000000000000000002343279400000000000000000000316387500000000000000000000000002336940400000000000000000000316375000000000000000000000000002561803100000000000000000000316362500000000000000000000000002681610700000000000000000000316350000000000000000000000000002549345600000000000000000000316337500000000000000000000000002464910700000000000000000000316325000000000000000000000000002206560200000000000000000000316312500000000000000000000000002299129200000000000000000000316300000000000000000000000000002456818100000000000000000000316287500000000000000000000000002501690900000000000000000000316275000000000000000000000000002408018000000000000000000000316262500000000000000000000000002260865000000000000000000000316250000000000000000000000000002478387200000000000000000000316237500000000000000000000000002481748700000000000000000000316225000000000000000000000000002438543400000000000000000000316212500000000000000000000000002361850100000000000000000000316200000000000000000000,
    2603153000000000000000000000317787500000000000000000000000002679973200000000000000000000317775000000000000000000000000002669727300000000000000000000317762500000000000000000000000002268552800000000000000000000317750000000000000000000000000002154039700000000000000000000317737500000000000000000000000002314054400000000000000000000317725000000000000000000000000002411114000000000000000000000317712500000000000000000000000002191237100000000000000000000317700000000000000000000000000002360511600000000000000000000317687500000000000000000000000002480029100000000000000000000317675000000000000000000000000002482309200000000000000000000317662500000000000000000000000002593796800000000000000000000317650000000000000000000000000002603732400000000000000000000317637500000000000000000000000002634540200000000000000000000317625000000000000000000000000002391710800000000000000000000317612500000000000000000000000002442969800000000000000000000317600000000000000000000000000002453280300000000000000000000317587500000000000000000000000002076810200000000000000000000317575000000000000000000000000002226568300000000000000000000317562500000000000000000000000002372868000000000000000000000317550000000000000000000000000002434887500000000000000000000317537500000000000000000000000002613291500000000000000000000317525000000000000000000000000002550868300000000000000000000317512500000000000000000000000002353144200000000000000000000317500000000000000000000000000002531409700000000000000000000317487500000000000000000000000002486441000000000000000000000317475000000000000000000000000002291454500000000000000000000317462500000000000000000000000002366999700000000000000000000317450000000000000000000000000002160074700000000000000000000317437500000000000000000000000002214809200000000000000000000317425000000000000000000000000002255105800000000000000000000317412500000000000000000000000002284191400000000000000000000317400000000000000000000000000002408722600000000000000000000317387500000000000000000000000002525164300000000000000000000317375000000000000000000000000002328445600000000000000000000317362500000000000000000000000002314492200000000000000000000317350000000000000000000000000002314107700000000000000000000317337500000000000000000000000002365675300000000000000000000317325000000000000000000000000002358691200000000000000000000317312500000000000000000000000002174043200000000000000000000317300000000000000000000000000002405122900000000000000000000317287500000000000000000000000002400617700000000000000000000317275000000000000000000000000002413046900000000000000000000317262500000000000000000000000002405779400000000000000000000317250000000000000000000000000002579018500000000000000000000317237500000000000000000000000002521762700000000000000000000317225000000000000000000000000002450763000000000000000000000317212500000000000000000000000002387857900000000000000000000317200000000000000000000000000002568366200000000000000000000317187500000000000000000000000002448279400000000000000000000317175000000000000000000000000002507341500000000000000000000317162500000000000000000000000002657348000000000000000000000317150000000000000000000000000002760337800000000000000000000317137500000000000000000000000002593834800000000000000000000317125000000000000000000000000002347477400000000000000000000317112500000000000000000000000002519759900000000000000000000317100000000000000000000000000002560362800000000000000000000317087500000000000000000000000002461228900000000000000000000317075000000000000000000000000002395610200000000000000000000317062500000000000000000000000002513595600000000000000000000317050000000000000000000000000002500531800000000000000000000317037500000000000000000000000002336534000000000000000000000317025000000000000000000000000002132286400000000000000000000317012500000000000000000000000002373062400000000000000000000317000000000000000000000,
    2259669900000000000000000000318587500000000000000000000000002379267700000000000000000000318575000000000000000000000000002304196100000000000000000000318562500000000000000000000000002257159300000000000000000000318550000000000000000000000000002555875700000000000000000000318537500000000000000000000000002565930700000000000000000000318525000000000000000000000000002463056500000000000000000000318512500000000000000000000000002518626900000000000000000000318500000000000000000000000000002537722600000000000000000000318487500000000000000000000000002351748600000000000000000000318475000000000000000000000000002383960400000000000000000000318462500000000000000000000000002395849300000000000000000000318450000000000000000000000000002374759800000000000000000000318437500000000000000000000000002474512100000000000000000000318425000000000000000000000000002523517600000000000000000000318412500000000000000000000000002475418400000000000000000000318400000000000000000000000000002589884300000000000000000000318387500000000000000000000000002587755600000000000000000000318375000000000000000000000000002470162800000000000000000000318362500000000000000000000000002498310400000000000000000000318350000000000000000000000000002344830800000000000000000000318337500000000000000000000000002567020400000000000000000000318325000000000000000000000000002599753800000000000000000000318312500000000000000000000000002335444500000000000000000000318300000000000000000000000000002208616900000000000000000000318287500000000000000000000000002169462500000000000000000000318275000000000000000000000000002435675400000000000000000000318262500000000000000000000000002513943400000000000000000000318250000000000000000000000000002814219100000000000000000000318237500000000000000000000000003131383100000000000000000000318225000000000000000000000000002651968100000000000000000000318212500000000000000000000000002460863000000000000000000000318200000000000000000000000000002450857600000000000000000000318187500000000000000000000000002481404700000000000000000000318175000000000000000000000000002430244400000000000000000000318162500000000000000000000000002519177600000000000000000000318150000000000000000000000000002631277300000000000000000000318137500000000000000000000000002624006400000000000000000000318125000000000000000000000000002614120500000000000000000000318112500000000000000000000000002467317600000000000000000000318100000000000000000000000000002447929300000000000000000000318087500000000000000000000000002549394600000000000000000000318075000000000000000000000000002700464700000000000000000000318062500000000000000000000000002508670800000000000000000000318050000000000000000000000000002380643700000000000000000000318037500000000000000000000000002384471100000000000000000000318025000000000000000000000000002423756900000000000000000000318012500000000000000000000000002603775900000000000000000000318000000000000000000000000000002733495500000000000000000000317987500000000000000000000000002738382300000000000000000000317975000000000000000000000000002648221400000000000000000000317962500000000000000000000000002612703600000000000000000000317950000000000000000000000000002736284900000000000000000000317937500000000000000000000000002632634500000000000000000000317925000000000000000000000000002526293400000000000000000000317912500000000000000000000000002572053200000000000000000000317900000000000000000000000000002586888800000000000000000000317887500000000000000000000000002586898600000000000000000000317875000000000000000000000000002533747600000000000000000000317862500000000000000000000000002382616700000000000000000000317850000000000000000000000000002382430800000000000000000000317837500000000000000000000000002432220100000000000000000000317825000000000000000000000000002456433700000000000000000000317812500000000000000000000000002297949600000000000000000000317800000000000000000000,
    2553297000000000000000000000319387500000000000000000000000002454534900000000000000000000319375000000000000000000000000002461929700000000000000000000319362500000000000000000000000002408276400000000000000000000319350000000000000000000000000002397682500000000000000000000319337500000000000000000000000002556738100000000000000000000319325000000000000000000000000002700131200000000000000000000319312500000000000000000000000002430150500000000000000000000319300000000000000000000000000002485387600000000000000000000319287500000000000000000000000002536812200000000000000000000319275000000000000000000000000002794655700000000000000000000319262500000000000000000000000002595908100000000000000000000319250000000000000000000000000002326745400000000000000000000319237500000000000000000000000002320948300000000000000000000319225000000000000000000000000002241737000000000000000000000319212500000000000000000000000002420915600000000000000000000319200000000000000000000000000002476916300000000000000000000319187500000000000000000000000002523858600000000000000000000319175000000000000000000000000002516270700000000000000000000319162500000000000000000000000002494197500000000000000000000319150000000000000000000000000002356981800000000000000000000319137500000000000000000000000002483031300000000000000000000319125000000000000000000000000002452468800000000000000000000319112500000000000000000000000002320701500000000000000000000319100000000000000000000000000002407338700000000000000000000319087500000000000000000000000002469309500000000000000000000319075000000000000000000000000002416355700000000000000000000319062500000000000000000000000002370430400000000000000000000319050000000000000000000000000002410017400000000000000000000319037500000000000000000000000002599906800000000000000000000319025000000000000000000000000002298624700000000000000000000319012500000000000000000000000002259274700000000000000000000319000000000000000000000000000002250503900000000000000000000318987500000000000000000000000002255975100000000000000000000318975000000000000000000000000002456059100000000000000000000318962500000000000000000000000002652905400000000000000000000318950000000000000000000000000002640905400000000000000000000318937500000000000000000000000002673834600000000000000000000318925000000000000000000000000002443220900000000000000000000318912500000000000000000000000002505291900000000000000000000318900000000000000000000000000002489001800000000000000000000318887500000000000000000000000002209166200000000000000000000318875000000000000000000000000002179490300000000000000000000318862500000000000000000000000002286811800000000000000000000318850000000000000000000000000002397105900000000000000000000318837500000000000000000000000002454808800000000000000000000318825000000000000000000000000002577629000000000000000000000318812500000000000000000000000002412440300000000000000000000318800000000000000000000000000002331885900000000000000000000318787500000000000000000000000002413247800000000000000000000318775000000000000000000000000002490189200000000000000000000318762500000000000000000000000002304042400000000000000000000318750000000000000000000000000002400761900000000000000000000318737500000000000000000000000002478452700000000000000000000318725000000000000000000000000002395372300000000000000000000318712500000000000000000000000002451113100000000000000000000318700000000000000000000000000002497999300000000000000000000318687500000000000000000000000002421155100000000000000000000318675000000000000000000000000002330217100000000000000000000318662500000000000000000000000002231983300000000000000000000318650000000000000000000000000002311856500000000000000000000318637500000000000000000000000002298521400000000000000000000318625000000000000000000000000002387416000000000000000000000318612500000000000000000000000002404476100000000000000000000318600000000000000000000,
    2548351200000000000000000000320187500000000000000000000000002518973500000000000000000000320175000000000000000000000000002345835900000000000000000000320162500000000000000000000000002358863000000000000000000000320150000000000000000000000000002170067100000000000000000000320137500000000000000000000000002318396700000000000000000000320125000000000000000000000000002309847200000000000000000000320112500000000000000000000000002306918500000000000000000000320100000000000000000000000000002611601300000000000000000000320087500000000000000000000000002594716300000000000000000000320075000000000000000000000000002750879500000000000000000000320062500000000000000000000000002645066700000000000000000000320050000000000000000000000000002531723400000000000000000000320037500000000000000000000000002410369200000000000000000000320025000000000000000000000000002482923100000000000000000000320012500000000000000000000000002391935400000000000000000000320000000000000000000000000000002435275400000000000000000000319987500000000000000000000000002505976300000000000000000000319975000000000000000000000000002562175900000000000000000000319962500000000000000000000000002479004400000000000000000000319950000000000000000000000000002228581700000000000000000000319937500000000000000000000000002162108600000000000000000000319925000000000000000000000000002332555600000000000000000000319912500000000000000000000000002386829000000000000000000000319900000000000000000000000000002488370800000000000000000000319887500000000000000000000000002704585000000000000000000000319875000000000000000000000000002581118700000000000000000000319862500000000000000000000000002409000100000000000000000000319850000000000000000000000000002463853700000000000000000000319837500000000000000000000000002417530700000000000000000000319825000000000000000000000000002514578700000000000000000000319812500000000000000000000000002605264400000000000000000000319800000000000000000000000000002584503200000000000000000000319787500000000000000000000000002581034200000000000000000000319775000000000000000000000000002401246800000000000000000000319762500000000000000000000000002386415100000000000000000000319750000000000000000000000000002311021700000000000000000000319737500000000000000000000000002379239900000000000000000000319725000000000000000000000000002730105100000000000000000000319712500000000000000000000000002779465700000000000000000000319700000000000000000000000000002452770400000000000000000000319687500000000000000000000000002252278500000000000000000000319675000000000000000000000000002435971500000000000000000000319662500000000000000000000000002532858500000000000000000000319650000000000000000000000000002374402100000000000000000000319637500000000000000000000000002417982100000000000000000000319625000000000000000000000000002487293600000000000000000000319612500000000000000000000000002518816900000000000000000000319600000000000000000000000000002403857900000000000000000000319587500000000000000000000000002325958100000000000000000000319575000000000000000000000000002227930200000000000000000000319562500000000000000000000000002393496000000000000000000000319550000000000000000000000000002358770800000000000000000000319537500000000000000000000000002418437900000000000000000000319525000000000000000000000000002296755100000000000000000000319512500000000000000000000000002372932900000000000000000000319500000000000000000000000000002194245100000000000000000000319487500000000000000000000000002460005000000000000000000000319475000000000000000000000000002563944000000000000000000000319462500000000000000000000000002656081000000000000000000000319450000000000000000000000000002356382200000000000000000000319437500000000000000000000000002248207200000000000000000000319425000000000000000000000000002367487700000000000000000000319412500000000000000000000000002420409600000000000000000000319400000000000000000000,
    2325825200000000000000000000320987500000000000000000000000002401481700000000000000000000320975000000000000000000000000002547533000000000000000000000320962500000000000000000000000002506659900000000000000000000320950000000000000000000000000002354601800000000000000000000320937500000000000000000000000002379398600000000000000000000320925000000000000000000000000002665825000000000000000000000320912500000000000000000000000002604935500000000000000000000320900000000000000000000000000002558624600000000000000000000320887500000000000000000000000002597364500000000000000000000320875000000000000000000000000002372557200000000000000000000320862500000000000000000000000002260028200000000000000000000320850000000000000000000000000002472245000000000000000000000320837500000000000000000000000002473712700000000000000000000320825000000000000000000000000002479327100000000000000000000320812500000000000000000000000002581529000000000000000000000320800000000000000000000000000002583823500000000000000000000320787500000000000000000000000002416974200000000000000000000320775000000000000000000000000002419009000000000000000000000320762500000000000000000000000002543591500000000000000000000320750000000000000000000000000002599360300000000000000000000320737500000000000000000000000002825095700000000000000000000320725000000000000000000000000002756913300000000000000000000320712500000000000000000000000002420143000000000000000000000320700000000000000000000000000002337718800000000000000000000320687500000000000000000000000002445357800000000000000000000320675000000000000000000000000002524891100000000000000000000320662500000000000000000000000002588395700000000000000000000320650000000000000000000000000002515646100000000000000000000320637500000000000000000000000002416020100000000000000000000320625000000000000000000000000002441634200000000000000000000320612500000000000000000000000002426171500000000000000000000320600000000000000000000000000002330119600000000000000000000320587500000000000000000000000002497619700000000000000000000320575000000000000000000000000002609052200000000000000000000320562500000000000000000000000002369901400000000000000000000320550000000000000000000000000002445208500000000000000000000320537500000000000000000000000002539406400000000000000000000320525000000000000000000000000002378501600000000000000000000320512500000000000000000000000002447319800000000000000000000320500000000000000000000000000002580009000000000000000000000320487500000000000000000000000002449471800000000000000000000320475000000000000000000000000002394625500000000000000000000320462500000000000000000000000002383696600000000000000000000320450000000000000000000000000002298725400000000000000000000320437500000000000000000000000002270323000000000000000000000320425000000000000000000000000002217900300000000000000000000320412500000000000000000000000002316028800000000000000000000320400000000000000000000000000002408490600000000000000000000320387500000000000000000000000002569907600000000000000000000320375000000000000000000000000002517882300000000000000000000320362500000000000000000000000002466077300000000000000000000320350000000000000000000000000002534239500000000000000000000320337500000000000000000000000002407060700000000000000000000320325000000000000000000000000002438287200000000000000000000320312500000000000000000000000002262227000000000000000000000320300000000000000000000000000002335221800000000000000000000320287500000000000000000000000002478990800000000000000000000320275000000000000000000000000002416355000000000000000000000320262500000000000000000000000002504258800000000000000000000320250000000000000000000000000002503761900000000000000000000320237500000000000000000000000002348744300000000000000000000320225000000000000000000000000002320827400000000000000000000320212500000000000000000000000002584190700000000000000000000320200000000000000000000,
    2293111100000000000000000000321787500000000000000000000000002314828600000000000000000000321775000000000000000000000000002322017500000000000000000000321762500000000000000000000000002336204000000000000000000000321750000000000000000000000000002314898300000000000000000000321737500000000000000000000000002524771500000000000000000000321725000000000000000000000000002358854200000000000000000000321712500000000000000000000000002422350100000000000000000000321700000000000000000000000000002506606800000000000000000000321687500000000000000000000000002474405300000000000000000000321675000000000000000000000000002625832500000000000000000000321662500000000000000000000000002567346900000000000000000000321650000000000000000000000000002343462200000000000000000000321637500000000000000000000000002337457500000000000000000000321625000000000000000000000000002520984800000000000000000000321612500000000000000000000000002535179500000000000000000000321600000000000000000000000000002493656800000000000000000000321587500000000000000000000000002309564400000000000000000000321575000000000000000000000000002311483400000000000000000000321562500000000000000000000000002367918500000000000000000000321550000000000000000000000000002305590700000000000000000000321537500000000000000000000000002560752400000000000000000000321525000000000000000000000000002707449600000000000000000000321512500000000000000000000000002480671100000000000000000000321500000000000000000000000000002387059000000000000000000000321487500000000000000000000000002613134800000000000000000000321475000000000000000000000000002456138800000000000000000000321462500000000000000000000000002281605600000000000000000000321450000000000000000000000000002407523100000000000000000000321437500000000000000000000000002260367000000000000000000000321425000000000000000000000000002317145100000000000000000000321412500000000000000000000000002366462600000000000000000000321400000000000000000000000000002450356100000000000000000000321387500000000000000000000000002382991800000000000000000000321375000000000000000000000000002406412600000000000000000000321362500000000000000000000000002436208100000000000000000000321350000000000000000000000000002381115100000000000000000000321337500000000000000000000000002273571200000000000000000000321325000000000000000000000000002372910800000000000000000000321312500000000000000000000000002570498300000000000000000000321300000000000000000000000000002566983600000000000000000000321287500000000000000000000000002341295700000000000000000000321275000000000000000000000000002297862100000000000000000000321262500000000000000000000000002461514400000000000000000000321250000000000000000000000000002635221500000000000000000000321237500000000000000000000000002477776400000000000000000000321225000000000000000000000000002476403500000000000000000000321212500000000000000000000000002372416200000000000000000000321200000000000000000000000000002570919700000000000000000000321187500000000000000000000000002518376300000000000000000000321175000000000000000000000000002448598500000000000000000000321162500000000000000000000000002465809100000000000000000000321150000000000000000000000000002368193900000000000000000000321137500000000000000000000000002401130100000000000000000000321125000000000000000000000000002368617700000000000000000000321112500000000000000000000000002503758500000000000000000000321100000000000000000000000000002493312000000000000000000000321087500000000000000000000000002424512700000000000000000000321075000000000000000000000000002261868900000000000000000000321062500000000000000000000000002311106600000000000000000000321050000000000000000000000000002481271400000000000000000000321037500000000000000000000000002428050600000000000000000000321025000000000000000000000000002417921700000000000000000000321012500000000000000000000000002241821700000000000000000000321000000000000000000000,
    2534279000000000000000000000322587500000000000000000000000002516617700000000000000000000322575000000000000000000000000002472329500000000000000000000322562500000000000000000000000002544680500000000000000000000322550000000000000000000000000002485122100000000000000000000322537500000000000000000000000002358167700000000000000000000322525000000000000000000000000002346195500000000000000000000322512500000000000000000000000002405824100000000000000000000322500000000000000000000000000002420902600000000000000000000322487500000000000000000000000002624526000000000000000000000322475000000000000000000000000002522430900000000000000000000322462500000000000000000000000002654636500000000000000000000322450000000000000000000000000002526646000000000000000000000322437500000000000000000000000002250838100000000000000000000322425000000000000000000000000002455814900000000000000000000322412500000000000000000000000002578356900000000000000000000322400000000000000000000000000002618538500000000000000000000322387500000000000000000000000002470571700000000000000000000322375000000000000000000000000002464480100000000000000000000322362500000000000000000000000002627169100000000000000000000322350000000000000000000000000002645039000000000000000000000322337500000000000000000000000002432347300000000000000000000322325000000000000000000000000002171185000000000000000000000322312500000000000000000000000002099670600000000000000000000322300000000000000000000000000002388319800000000000000000000322287500000000000000000000000002513947800000000000000000000322275000000000000000000000000002483328100000000000000000000322262500000000000000000000000002557936000000000000000000000322250000000000000000000000000002368835500000000000000000000322237500000000000000000000000002270959600000000000000000000322225000000000000000000000000002175015900000000000000000000322212500000000000000000000000002228861300000000000000000000322200000000000000000000000000002365291500000000000000000000322187500000000000000000000000002309693500000000000000000000322175000000000000000000000000002580477600000000000000000000322162500000000000000000000000002561283700000000000000000000322150000000000000000000000000002503187800000000000000000000322137500000000000000000000000002357750000000000000000000000322125000000000000000000000000002360871900000000000000000000322112500000000000000000000000002485276100000000000000000000322100000000000000000000000000002386353500000000000000000000322087500000000000000000000000002393817700000000000000000000322075000000000000000000000000002389569400000000000000000000322062500000000000000000000000002356025800000000000000000000322050000000000000000000000000002498126800000000000000000000322037500000000000000000000000002396400200000000000000000000322025000000000000000000000000002458504800000000000000000000322012500000000000000000000000002607167900000000000000000000322000000000000000000000000000002494600600000000000000000000321987500000000000000000000000002515543800000000000000000000321975000000000000000000000000002602467700000000000000000000321962500000000000000000000000002290129900000000000000000000321950000000000000000000000000002499747700000000000000000000321937500000000000000000000000002547894600000000000000000000321925000000000000000000000000002358205000000000000000000000321912500000000000000000000000002382943200000000000000000000321900000000000000000000000000002363902000000000000000000000321887500000000000000000000000002341025500000000000000000000321875000000000000000000000000002220275900000000000000000000321862500000000000000000000000002470123900000000000000000000321850000000000000000000000000002512329400000000000000000000321837500000000000000000000000002395057600000000000000000000321825000000000000000000000000002392443500000000000000000000321812500000000000000000000000002412738900000000000000000000321800000000000000000000,
    2374282200000000000000000000323387500000000000000000000000002532632000000000000000000000323375000000000000000000000000002433254700000000000000000000323362500000000000000000000000002510348500000000000000000000323350000000000000000000000000002553694100000000000000000000323337500000000000000000000000002628392400000000000000000000323325000000000000000000000000002734089100000000000000000000323312500000000000000000000000002640870700000000000000000000323300000000000000000000000000002612608600000000000000000000323287500000000000000000000000002665715300000000000000000000323275000000000000000000000000002558341100000000000000000000323262500000000000000000000000002517515200000000000000000000323250000000000000000000000000002378670000000000000000000000323237500000000000000000000000002376743400000000000000000000323225000000000000000000000000002477897400000000000000000000323212500000000000000000000000002398633500000000000000000000323200000000000000000000000000002328951200000000000000000000323187500000000000000000000000002484762600000000000000000000323175000000000000000000000000002597330200000000000000000000323162500000000000000000000000002382562600000000000000000000323150000000000000000000000000002526305600000000000000000000323137500000000000000000000000002504783300000000000000000000323125000000000000000000000000002565679500000000000000000000323112500000000000000000000000002450944300000000000000000000323100000000000000000000000000002311329600000000000000000000323087500000000000000000000000002287481700000000000000000000323075000000000000000000000000002614856700000000000000000000323062500000000000000000000000002669455500000000000000000000323050000000000000000000000000002333055600000000000000000000323037500000000000000000000000002215270300000000000000000000323025000000000000000000000000002489766500000000000000000000323012500000000000000000000000002465400300000000000000000000323000000000000000000000000000002403309600000000000000000000322987500000000000000000000000002467893600000000000000000000322975000000000000000000000000002491319400000000000000000000322962500000000000000000000000002591539700000000000000000000322950000000000000000000000000002545596300000000000000000000322937500000000000000000000000002627439500000000000000000000322925000000000000000000000000002523295800000000000000000000322912500000000000000000000000002321972400000000000000000000322900000000000000000000000000002716057300000000000000000000322887500000000000000000000000002651915000000000000000000000322875000000000000000000000000002510795400000000000000000000322862500000000000000000000000002449103700000000000000000000322850000000000000000000000000002655354800000000000000000000322837500000000000000000000000002631601600000000000000000000322825000000000000000000000000002294145400000000000000000000322812500000000000000000000000002368918600000000000000000000322800000000000000000000000000002404170800000000000000000000322787500000000000000000000000002618612500000000000000000000322775000000000000000000000000002807940200000000000000000000322762500000000000000000000000002605283000000000000000000000322750000000000000000000000000002548588300000000000000000000322737500000000000000000000000002365490400000000000000000000322725000000000000000000000000002465400500000000000000000000322712500000000000000000000000002627889900000000000000000000322700000000000000000000000000002645712100000000000000000000322687500000000000000000000000002470073900000000000000000000322675000000000000000000000000002334305500000000000000000000322662500000000000000000000000002401413600000000000000000000322650000000000000000000000000002413547700000000000000000000322637500000000000000000000000002350387300000000000000000000322625000000000000000000000000002331980300000000000000000000322612500000000000000000000000002425540900000000000000000000322600000000000000000000,
    2727975300000000000000000000324187500000000000000000000000002528365100000000000000000000324175000000000000000000000000002445969400000000000000000000324162500000000000000000000000002628318700000000000000000000324150000000000000000000000000002538825600000000000000000000324137500000000000000000000000002343157100000000000000000000324125000000000000000000000000002340305000000000000000000000324112500000000000000000000000002337223100000000000000000000324100000000000000000000000000002516410400000000000000000000324087500000000000000000000000002504028500000000000000000000324075000000000000000000000000002310430600000000000000000000324062500000000000000000000000002416399600000000000000000000324050000000000000000000000000002385080300000000000000000000324037500000000000000000000000002379428700000000000000000000324025000000000000000000000000002460000900000000000000000000324012500000000000000000000000002424443600000000000000000000324000000000000000000000000000002420803300000000000000000000323987500000000000000000000000002313490600000000000000000000323975000000000000000000000000002393895600000000000000000000323962500000000000000000000000002444439300000000000000000000323950000000000000000000000000002569588800000000000000000000323937500000000000000000000000002704962800000000000000000000323925000000000000000000000000002589093600000000000000000000323912500000000000000000000000002601540100000000000000000000323900000000000000000000000000002603890000000000000000000000323887500000000000000000000000002497178400000000000000000000323875000000000000000000000000002345905300000000000000000000323862500000000000000000000000002318498100000000000000000000323850000000000000000000000000002400630700000000000000000000323837500000000000000000000000002411809800000000000000000000323825000000000000000000000000002620432600000000000000000000323812500000000000000000000000002400063200000000000000000000323800000000000000000000000000002307854100000000000000000000323787500000000000000000000000002510468700000000000000000000323775000000000000000000000000002531116700000000000000000000323762500000000000000000000000002320210800000000000000000000323750000000000000000000000000002208080600000000000000000000323737500000000000000000000000002358687500000000000000000000323725000000000000000000000000002527120100000000000000000000323712500000000000000000000000002371903900000000000000000000323700000000000000000000000000002519361700000000000000000000323687500000000000000000000000002663404800000000000000000000323675000000000000000000000000002688235900000000000000000000323662500000000000000000000000002615283400000000000000000000323650000000000000000000000000002537638500000000000000000000323637500000000000000000000000002261377900000000000000000000323625000000000000000000000000002378710700000000000000000000323612500000000000000000000000002312299200000000000000000000323600000000000000000000000000002447862300000000000000000000323587500000000000000000000000002610838400000000000000000000323575000000000000000000000000002491017900000000000000000000323562500000000000000000000000002627307800000000000000000000323550000000000000000000000000002788417300000000000000000000323537500000000000000000000000002425473100000000000000000000323525000000000000000000000000002435826100000000000000000000323512500000000000000000000000002421015000000000000000000000323500000000000000000000000000002350625800000000000000000000323487500000000000000000000000002425572400000000000000000000323475000000000000000000000000002497209300000000000000000000323462500000000000000000000000002681007300000000000000000000323450000000000000000000000000002606375400000000000000000000323437500000000000000000000000002282897000000000000000000000323425000000000000000000000000002246167800000000000000000000323412500000000000000000000000002328719100000000000000000000323400000000000000000000,
    5120300700000000000000000000324987500000000000000000000000004280293000000000000000000000324975000000000000000000000000003388979400000000000000000000324962500000000000000000000000002855103500000000000000000000324950000000000000000000000000002817078300000000000000000000324937500000000000000000000000002891964300000000000000000000324925000000000000000000000000002584211100000000000000000000324912500000000000000000000000002597043600000000000000000000324900000000000000000000000000002691854000000000000000000000324887500000000000000000000000002582410300000000000000000000324875000000000000000000000000002399962100000000000000000000324862500000000000000000000000002307162400000000000000000000324850000000000000000000000000002653487700000000000000000000324837500000000000000000000000002669944600000000000000000000324825000000000000000000000000002584958600000000000000000000324812500000000000000000000000002664296800000000000000000000324800000000000000000000000000002576624500000000000000000000324787500000000000000000000000002393492900000000000000000000324775000000000000000000000000002396137800000000000000000000324762500000000000000000000000002542182300000000000000000000324750000000000000000000000000002695783900000000000000000000324737500000000000000000000000002711272300000000000000000000324725000000000000000000000000002399050900000000000000000000324712500000000000000000000000002621206300000000000000000000324700000000000000000000000000002580870100000000000000000000324687500000000000000000000000002461953000000000000000000000324675000000000000000000000000002547433400000000000000000000324662500000000000000000000000002550764300000000000000000000324650000000000000000000000000002581170900000000000000000000324637500000000000000000000000002660410500000000000000000000324625000000000000000000000000002560650300000000000000000000324612500000000000000000000000002605065500000000000000000000324600000000000000000000000000002640289900000000000000000000324587500000000000000000000000002455399400000000000000000000324575000000000000000000000000002411554300000000000000000000324562500000000000000000000000002614003900000000000000000000324550000000000000000000000000002554106300000000000000000000324537500000000000000000000000002486576000000000000000000000324525000000000000000000000000002557829800000000000000000000324512500000000000000000000000002497410100000000000000000000324500000000000000000000000000002433527400000000000000000000324487500000000000000000000000002601688500000000000000000000324475000000000000000000000000002554288400000000000000000000324462500000000000000000000000002441901700000000000000000000324450000000000000000000000000002507116600000000000000000000324437500000000000000000000000002433880300000000000000000000324425000000000000000000000000002281141600000000000000000000324412500000000000000000000000002562041600000000000000000000324400000000000000000000000000002514847900000000000000000000324387500000000000000000000000002483862900000000000000000000324375000000000000000000000000002545281300000000000000000000324362500000000000000000000000002607947600000000000000000000324350000000000000000000000000002393298700000000000000000000324337500000000000000000000000002293946100000000000000000000324325000000000000000000000000002378852100000000000000000000324312500000000000000000000000002525787300000000000000000000324300000000000000000000000000002454853400000000000000000000324287500000000000000000000000002563007700000000000000000000324275000000000000000000000000002566724100000000000000000000324262500000000000000000000000002675477300000000000000000000324250000000000000000000000000002576644500000000000000000000324237500000000000000000000000002672399200000000000000000000324225000000000000000000000000002639359900000000000000000000324212500000000000000000000000002667528300000000000000000000324200000000000000000000,
    2548362800000000000000000000325787500000000000000000000000002752155800000000000000000000325775000000000000000000000000002551634900000000000000000000325762500000000000000000000000002362631100000000000000000000325750000000000000000000000000002411065800000000000000000000325737500000000000000000000000002387398200000000000000000000325725000000000000000000000000002436793700000000000000000000325712500000000000000000000000002521424300000000000000000000325700000000000000000000000000002627058200000000000000000000325687500000000000000000000000002560993200000000000000000000325675000000000000000000000000002392967300000000000000000000325662500000000000000000000000002347430600000000000000000000325650000000000000000000000000002481679000000000000000000000325637500000000000000000000000002727465500000000000000000000325625000000000000000000000000002530373200000000000000000000325612500000000000000000000000002327441800000000000000000000325600000000000000000000000000002388406700000000000000000000325587500000000000000000000000002526309900000000000000000000325575000000000000000000000000002300952400000000000000000000325562500000000000000000000000002169541100000000000000000000325550000000000000000000000000002364718600000000000000000000325537500000000000000000000000002516976900000000000000000000325525000000000000000000000000002667350700000000000000000000325512500000000000000000000000002483441000000000000000000000325500000000000000000000000000002332414100000000000000000000325487500000000000000000000000002373574700000000000000000000325475000000000000000000000000002391767600000000000000000000325462500000000000000000000000002294097300000000000000000000325450000000000000000000000000002172075100000000000000000000325437500000000000000000000000002336924300000000000000000000325425000000000000000000000000002455217000000000000000000000325412500000000000000000000000002522502600000000000000000000325400000000000000000000000000002491020600000000000000000000325387500000000000000000000000002411524900000000000000000000325375000000000000000000000000002383265700000000000000000000325362500000000000000000000000002462816000000000000000000000325350000000000000000000000000002573190600000000000000000000325337500000000000000000000000002368296300000000000000000000325325000000000000000000000000002454830200000000000000000000325312500000000000000000000000002495984600000000000000000000325300000000000000000000000000002386508400000000000000000000325287500000000000000000000000002728998000000000000000000000325275000000000000000000000000002747227600000000000000000000325262500000000000000000000000002752301000000000000000000000325250000000000000000000000000002761058400000000000000000000325237500000000000000000000000002598057700000000000000000000325225000000000000000000000000002613074700000000000000000000325212500000000000000000000000002522799600000000000000000000325200000000000000000000000000002466333200000000000000000000325187500000000000000000000000002490139300000000000000000000325175000000000000000000000000002709491100000000000000000000325162500000000000000000000000002640006000000000000000000000325150000000000000000000000000002753639600000000000000000000325137500000000000000000000000002906336500000000000000000000325125000000000000000000000000003240717600000000000000000000325112500000000000000000000000003176495600000000000000000000325100000000000000000000000000003596347600000000000000000000325087500000000000000000000000004448901300000000000000000000325075000000000000000000000000005294092200000000000000000000325062500000000000000000000000005545405500000000000000000000325050000000000000000000000000005550499300000000000000000000325037500000000000000000000000005835599900000000000000000000325025000000000000000000000000005847287000000000000000000000325012500000000000000000000000005433040000000000000000000000325000000000000000000000,
    2591652500000000000000000000326587500000000000000000000000002406085400000000000000000000326575000000000000000000000000002347634200000000000000000000326562500000000000000000000000002442114400000000000000000000326550000000000000000000000000002404106600000000000000000000326537500000000000000000000000002650115200000000000000000000326525000000000000000000000000002622337000000000000000000000326512500000000000000000000000002347092500000000000000000000326500000000000000000000000000002298097500000000000000000000326487500000000000000000000000002488053300000000000000000000326475000000000000000000000000002534191600000000000000000000326462500000000000000000000000002456776200000000000000000000326450000000000000000000000000002307144600000000000000000000326437500000000000000000000000002368458700000000000000000000326425000000000000000000000000002592404200000000000000000000326412500000000000000000000000002564665500000000000000000000326400000000000000000000000000002572009400000000000000000000326387500000000000000000000000002561273200000000000000000000326375000000000000000000000000002601825700000000000000000000326362500000000000000000000000002657110800000000000000000000326350000000000000000000000000002663055300000000000000000000326337500000000000000000000000002454165800000000000000000000326325000000000000000000000000002428754300000000000000000000326312500000000000000000000000002325544400000000000000000000326300000000000000000000000000002438485700000000000000000000326287500000000000000000000000002585726000000000000000000000326275000000000000000000000000002424753100000000000000000000326262500000000000000000000000002388609300000000000000000000326250000000000000000000000000002586231800000000000000000000326237500000000000000000000000002409719000000000000000000000326225000000000000000000000000002359482800000000000000000000326212500000000000000000000000002468580600000000000000000000326200000000000000000000000000002410377700000000000000000000326187500000000000000000000000002290126100000000000000000000326175000000000000000000000000002555347600000000000000000000326162500000000000000000000000002478494700000000000000000000326150000000000000000000000000002527302000000000000000000000326137500000000000000000000000002369588500000000000000000000326125000000000000000000000000002332089900000000000000000000326112500000000000000000000000002413758900000000000000000000326100000000000000000000000000002317399800000000000000000000326087500000000000000000000000002668413900000000000000000000326075000000000000000000000000002526531300000000000000000000326062500000000000000000000000002568022500000000000000000000326050000000000000000000000000002726225500000000000000000000326037500000000000000000000000002605969900000000000000000000326025000000000000000000000000002368565200000000000000000000326012500000000000000000000000002512639600000000000000000000326000000000000000000000000000002622368800000000000000000000325987500000000000000000000000002494401900000000000000000000325975000000000000000000000000002308806400000000000000000000325962500000000000000000000000002534692700000000000000000000325950000000000000000000000000002700934400000000000000000000325937500000000000000000000000002616297000000000000000000000325925000000000000000000000000002281359900000000000000000000325912500000000000000000000000002311112900000000000000000000325900000000000000000000000000002491050300000000000000000000325887500000000000000000000000002463601600000000000000000000325875000000000000000000000000002558639300000000000000000000325862500000000000000000000000002438266900000000000000000000325850000000000000000000000000002403413100000000000000000000325837500000000000000000000000002576918300000000000000000000325825000000000000000000000000002515547500000000000000000000325812500000000000000000000000002325728400000000000000000000325800000000000000000000,
    2640114800000000000000000000327387500000000000000000000000002583997800000000000000000000327375000000000000000000000000002645066600000000000000000000327362500000000000000000000000002754918100000000000000000000327350000000000000000000000000002605978700000000000000000000327337500000000000000000000000002708232900000000000000000000327325000000000000000000000000002679195200000000000000000000327312500000000000000000000000002655223000000000000000000000327300000000000000000000000000002567323800000000000000000000327287500000000000000000000000002600973800000000000000000000327275000000000000000000000000002552338700000000000000000000327262500000000000000000000000002619074900000000000000000000327250000000000000000000000000002423323200000000000000000000327237500000000000000000000000002170235400000000000000000000327225000000000000000000000000002410832000000000000000000000327212500000000000000000000000002660925100000000000000000000327200000000000000000000000000002490577000000000000000000000327187500000000000000000000000002414928900000000000000000000327175000000000000000000000000002711893600000000000000000000327162500000000000000000000000002874317200000000000000000000327150000000000000000000000000002711078500000000000000000000327137500000000000000000000000002391350400000000000000000000327125000000000000000000000000002464124100000000000000000000327112500000000000000000000000002458033800000000000000000000327100000000000000000000000000002483049200000000000000000000327087500000000000000000000000002439425200000000000000000000327075000000000000000000000000002411310400000000000000000000327062500000000000000000000000002604542500000000000000000000327050000000000000000000000000002760939400000000000000000000327037500000000000000000000000002708387900000000000000000000327025000000000000000000000000002620699500000000000000000000327012500000000000000000000000002711236500000000000000000000327000000000000000000000000000002692248000000000000000000000326987500000000000000000000000002477460500000000000000000000326975000000000000000000000000002531417500000000000000000000326962500000000000000000000000002645318400000000000000000000326950000000000000000000000000002463388200000000000000000000326937500000000000000000000000002455350600000000000000000000326925000000000000000000000000002398189100000000000000000000326912500000000000000000000000002462520700000000000000000000326900000000000000000000000000002446118400000000000000000000326887500000000000000000000000002440687100000000000000000000326875000000000000000000000000002414680800000000000000000000326862500000000000000000000000002483385400000000000000000000326850000000000000000000000000002796748600000000000000000000326837500000000000000000000000002746123500000000000000000000326825000000000000000000000000002454177800000000000000000000326812500000000000000000000000002393371500000000000000000000326800000000000000000000000000002641141100000000000000000000326787500000000000000000000000002522754100000000000000000000326775000000000000000000000000002321770500000000000000000000326762500000000000000000000000002478562700000000000000000000326750000000000000000000000000002661569400000000000000000000326737500000000000000000000000002732746300000000000000000000326725000000000000000000000000002641898000000000000000000000326712500000000000000000000000002490378700000000000000000000326700000000000000000000000000002551510100000000000000000000326687500000000000000000000000002596071200000000000000000000326675000000000000000000000000002403964600000000000000000000326662500000000000000000000000002312195200000000000000000000326650000000000000000000000000002449630200000000000000000000326637500000000000000000000000002517621300000000000000000000326625000000000000000000000000002576471800000000000000000000326612500000000000000000000000002529557200000000000000000000326600000000000000000000,
    2282763500000000000000000000328187500000000000000000000000002589331600000000000000000000328175000000000000000000000000002530608500000000000000000000328162500000000000000000000000002311470100000000000000000000328150000000000000000000000000002388059100000000000000000000328137500000000000000000000000002709362600000000000000000000328125000000000000000000000000002789463000000000000000000000328112500000000000000000000000002748751100000000000000000000328100000000000000000000000000002555759000000000000000000000328087500000000000000000000000002454945100000000000000000000328075000000000000000000000000002540277200000000000000000000328062500000000000000000000000002775296100000000000000000000328050000000000000000000000000002533124200000000000000000000328037500000000000000000000000002524944600000000000000000000328025000000000000000000000000002688703500000000000000000000328012500000000000000000000000002779908600000000000000000000328000000000000000000000000000002813908200000000000000000000327987500000000000000000000000002729771200000000000000000000327975000000000000000000000000002789802100000000000000000000327962500000000000000000000000002732275300000000000000000000327950000000000000000000000000002588694600000000000000000000327937500000000000000000000000002768027300000000000000000000327925000000000000000000000000002839402900000000000000000000327912500000000000000000000000002666509700000000000000000000327900000000000000000000000000002533369700000000000000000000327887500000000000000000000000002568420600000000000000000000327875000000000000000000000000002573772300000000000000000000327862500000000000000000000000002592985800000000000000000000327850000000000000000000000000002573072500000000000000000000327837500000000000000000000000002368320600000000000000000000327825000000000000000000000000002319442000000000000000000000327812500000000000000000000000002551069700000000000000000000327800000000000000000000000000002569601600000000000000000000327787500000000000000000000000002467917500000000000000000000327775000000000000000000000000002489241500000000000000000000327762500000000000000000000000002504897200000000000000000000327750000000000000000000000000002546835100000000000000000000327737500000000000000000000000002687608000000000000000000000327725000000000000000000000000002511904500000000000000000000327712500000000000000000000000002460384000000000000000000000327700000000000000000000000000002699017600000000000000000000327687500000000000000000000000002653213100000000000000000000327675000000000000000000000000002478146100000000000000000000327662500000000000000000000000002481944200000000000000000000327650000000000000000000000000002587466600000000000000000000327637500000000000000000000000002603922300000000000000000000327625000000000000000000000000002613366200000000000000000000327612500000000000000000000000002690753400000000000000000000327600000000000000000000000000002623073900000000000000000000327587500000000000000000000000002389088900000000000000000000327575000000000000000000000000002398600600000000000000000000327562500000000000000000000000002488843800000000000000000000327550000000000000000000000000002424430000000000000000000000327537500000000000000000000000002654860000000000000000000000327525000000000000000000000000002628778600000000000000000000327512500000000000000000000000002453896200000000000000000000327500000000000000000000000000002365216100000000000000000000327487500000000000000000000000002382376900000000000000000000327475000000000000000000000000002572601900000000000000000000327462500000000000000000000000002758163000000000000000000000327450000000000000000000000000002612471000000000000000000000327437500000000000000000000000002302719400000000000000000000327425000000000000000000000000002423478200000000000000000000327412500000000000000000000000002586026000000000000000000000327400000000000000000000,
    2324057700000000000000000000328987500000000000000000000000002302891600000000000000000000328975000000000000000000000000002284728100000000000000000000328962500000000000000000000000002382958200000000000000000000328950000000000000000000000000002424431600000000000000000000328937500000000000000000000000002256816500000000000000000000328925000000000000000000000000002580295200000000000000000000328912500000000000000000000000002737857400000000000000000000328900000000000000000000000000002406719500000000000000000000328887500000000000000000000000002197687400000000000000000000328875000000000000000000000000002272234100000000000000000000328862500000000000000000000000002276554900000000000000000000328850000000000000000000000000002369739500000000000000000000328837500000000000000000000000002569820800000000000000000000328825000000000000000000000000002464966200000000000000000000328812500000000000000000000000002561089900000000000000000000328800000000000000000000000000002573761300000000000000000000328787500000000000000000000000002402743500000000000000000000328775000000000000000000000000002454022300000000000000000000328762500000000000000000000000002618549500000000000000000000328750000000000000000000000000002570319300000000000000000000328737500000000000000000000000002507986100000000000000000000328725000000000000000000000000002597783700000000000000000000328712500000000000000000000000002642800800000000000000000000328700000000000000000000000000002548410000000000000000000000328687500000000000000000000000002475446000000000000000000000328675000000000000000000000000002463225800000000000000000000328662500000000000000000000000002335464700000000000000000000328650000000000000000000000000002492514600000000000000000000328637500000000000000000000000002603421200000000000000000000328625000000000000000000000000002559555400000000000000000000328612500000000000000000000000002602571200000000000000000000328600000000000000000000000000002420262000000000000000000000328587500000000000000000000000002567848800000000000000000000328575000000000000000000000000002659651800000000000000000000328562500000000000000000000000002543962200000000000000000000328550000000000000000000000000002421411000000000000000000000328537500000000000000000000000002492937800000000000000000000328525000000000000000000000000002678949900000000000000000000328512500000000000000000000000002683066800000000000000000000328500000000000000000000000000002512109800000000000000000000328487500000000000000000000000002554245300000000000000000000328475000000000000000000000000002471644200000000000000000000328462500000000000000000000000002323865100000000000000000000328450000000000000000000000000002456376100000000000000000000328437500000000000000000000000002428525300000000000000000000328425000000000000000000000000002634310400000000000000000000328412500000000000000000000000002755504400000000000000000000328400000000000000000000000000002544399900000000000000000000328387500000000000000000000000002395973100000000000000000000328375000000000000000000000000002570225500000000000000000000328362500000000000000000000000002776315900000000000000000000328350000000000000000000000000002740600200000000000000000000328337500000000000000000000000002546565800000000000000000000328325000000000000000000000000002797102100000000000000000000328312500000000000000000000000002731551600000000000000000000328300000000000000000000000000002600146700000000000000000000328287500000000000000000000000002596958400000000000000000000328275000000000000000000000000002358887600000000000000000000328262500000000000000000000000002553911100000000000000000000328250000000000000000000000000002767465700000000000000000000328237500000000000000000000000002669089300000000000000000000328225000000000000000000000000002385452900000000000000000000328212500000000000000000000000002363306200000000000000000000328200000000000000000000,
    2579594400000000000000000000329787500000000000000000000000002687513300000000000000000000329775000000000000000000000000002774986100000000000000000000329762500000000000000000000000002510824200000000000000000000329750000000000000000000000000002329171900000000000000000000329737500000000000000000000000002355410200000000000000000000329725000000000000000000000000002385307400000000000000000000329712500000000000000000000000002542016500000000000000000000329700000000000000000000000000002621967400000000000000000000329687500000000000000000000000002720950900000000000000000000329675000000000000000000000000002500546200000000000000000000329662500000000000000000000000002624862500000000000000000000329650000000000000000000000000002521903200000000000000000000329637500000000000000000000000002358111900000000000000000000329625000000000000000000000000002472385600000000000000000000329612500000000000000000000000002744803000000000000000000000329600000000000000000000000000002677208600000000000000000000329587500000000000000000000000002682799200000000000000000000329575000000000000000000000000002937768200000000000000000000329562500000000000000000000000002813610800000000000000000000329550000000000000000000000000002632446700000000000000000000329537500000000000000000000000002544600400000000000000000000329525000000000000000000000000002575622300000000000000000000329512500000000000000000000000002520282200000000000000000000329500000000000000000000000000002445362300000000000000000000329487500000000000000000000000002504873400000000000000000000329475000000000000000000000000002360488500000000000000000000329462500000000000000000000000002425833500000000000000000000329450000000000000000000000000002545378900000000000000000000329437500000000000000000000000002303166800000000000000000000329425000000000000000000000000002435695100000000000000000000329412500000000000000000000000002573455900000000000000000000329400000000000000000000000000002528054000000000000000000000329387500000000000000000000000002595942900000000000000000000329375000000000000000000000000002834732800000000000000000000329362500000000000000000000000002634118000000000000000000000329350000000000000000000000000002710418100000000000000000000329337500000000000000000000000002645954700000000000000000000329325000000000000000000000000002469946800000000000000000000329312500000000000000000000000002427987700000000000000000000329300000000000000000000000000002274039200000000000000000000329287500000000000000000000000002270779800000000000000000000329275000000000000000000000000002393546800000000000000000000329262500000000000000000000000002535530700000000000000000000329250000000000000000000000000002620569500000000000000000000329237500000000000000000000000002534380900000000000000000000329225000000000000000000000000002452371200000000000000000000329212500000000000000000000000002536556700000000000000000000329200000000000000000000000000002717081100000000000000000000329187500000000000000000000000002673839300000000000000000000329175000000000000000000000000002516773200000000000000000000329162500000000000000000000000002346361400000000000000000000329150000000000000000000000000002455065200000000000000000000329137500000000000000000000000002471517700000000000000000000329125000000000000000000000000002629538500000000000000000000329112500000000000000000000000002438277400000000000000000000329100000000000000000000000000002404236400000000000000000000329087500000000000000000000000002527768100000000000000000000329075000000000000000000000000002622744100000000000000000000329062500000000000000000000000002707329400000000000000000000329050000000000000000000000000002541967300000000000000000000329037500000000000000000000000002578264300000000000000000000329025000000000000000000000000002549105100000000000000000000329012500000000000000000000000002483524800000000000000000000329000000000000000000000,
    2607402000000000000000000000330587500000000000000000000000002607078000000000000000000000330575000000000000000000000000002423016400000000000000000000330562500000000000000000000000002472640400000000000000000000330550000000000000000000000000002705286000000000000000000000330537500000000000000000000000003999212200000000000000000000330525000000000000000000000000003763368000000000000000000000330512500000000000000000000000002622146300000000000000000000330500000000000000000000000000002637956100000000000000000000330487500000000000000000000000002565437900000000000000000000330475000000000000000000000000002538189200000000000000000000330462500000000000000000000000002405999000000000000000000000330450000000000000000000000000002267459700000000000000000000330437500000000000000000000000002458138000000000000000000000330425000000000000000000000000002435890400000000000000000000330412500000000000000000000000002446912600000000000000000000330400000000000000000000000000002738495300000000000000000000330387500000000000000000000000002821806100000000000000000000330375000000000000000000000000002621029500000000000000000000330362500000000000000000000000002714233100000000000000000000330350000000000000000000000000002722200400000000000000000000330337500000000000000000000000002774246700000000000000000000330325000000000000000000000000002869068900000000000000000000330312500000000000000000000000002789879900000000000000000000330300000000000000000000000000002682654300000000000000000000330287500000000000000000000000002630391000000000000000000000330275000000000000000000000000002671292500000000000000000000330262500000000000000000000000002559229100000000000000000000330250000000000000000000000000002589203300000000000000000000330237500000000000000000000000002463994100000000000000000000330225000000000000000000000000002468460500000000000000000000330212500000000000000000000000002414639000000000000000000000330200000000000000000000000000002358520700000000000000000000330187500000000000000000000000002585198800000000000000000000330175000000000000000000000000002470663300000000000000000000330162500000000000000000000000002381685100000000000000000000330150000000000000000000000000002629287100000000000000000000330137500000000000000000000000002677219400000000000000000000330125000000000000000000000000002514396100000000000000000000330112500000000000000000000000002521884800000000000000000000330100000000000000000000000000002663065800000000000000000000330087500000000000000000000000002713754800000000000000000000330075000000000000000000000000002599998600000000000000000000330062500000000000000000000000002420954400000000000000000000330050000000000000000000000000002555476100000000000000000000330037500000000000000000000000002438484400000000000000000000330025000000000000000000000000002500373000000000000000000000330012500000000000000000000000002605926300000000000000000000330000000000000000000000000000002704701500000000000000000000329987500000000000000000000000002710476200000000000000000000329975000000000000000000000000002714916200000000000000000000329962500000000000000000000000002536282000000000000000000000329950000000000000000000000000002465443300000000000000000000329937500000000000000000000000002504724700000000000000000000329925000000000000000000000000002627492800000000000000000000329912500000000000000000000000002563263500000000000000000000329900000000000000000000000000002621219000000000000000000000329887500000000000000000000000002632809200000000000000000000329875000000000000000000000000002699588700000000000000000000329862500000000000000000000000002466240200000000000000000000329850000000000000000000000000002332654100000000000000000000329837500000000000000000000000002303063900000000000000000000329825000000000000000000000000002386188300000000000000000000329812500000000000000000000000002555391100000000000000000000329800000000000000000000,
    2575971400000000000000000000331387500000000000000000000000002546253700000000000000000000331375000000000000000000000000002423818500000000000000000000331362500000000000000000000000002537637500000000000000000000331350000000000000000000000000002603334400000000000000000000331337500000000000000000000000002504402200000000000000000000331325000000000000000000000000002449786200000000000000000000331312500000000000000000000000002485545100000000000000000000331300000000000000000000000000002678601500000000000000000000331287500000000000000000000000002746113300000000000000000000331275000000000000000000000000002584012300000000000000000000331262500000000000000000000000002428812700000000000000000000331250000000000000000000000000002389571600000000000000000000331237500000000000000000000000002461918600000000000000000000331225000000000000000000000000002560266300000000000000000000331212500000000000000000000000002713491200000000000000000000331200000000000000000000000000002469778800000000000000000000331187500000000000000000000000002365426000000000000000000000331175000000000000000000000000002521502500000000000000000000331162500000000000000000000000002426312800000000000000000000331150000000000000000000000000002558315600000000000000000000331137500000000000000000000000002693567900000000000000000000331125000000000000000000000000002649291500000000000000000000331112500000000000000000000000002404032400000000000000000000331100000000000000000000000000002432670800000000000000000000331087500000000000000000000000002700812000000000000000000000331075000000000000000000000000002486956700000000000000000000331062500000000000000000000000002597439200000000000000000000331050000000000000000000000000002791924500000000000000000000331037500000000000000000000000002678349500000000000000000000331025000000000000000000000000002560220800000000000000000000331012500000000000000000000000002359730300000000000000000000331000000000000000000000000000002418061700000000000000000000330987500000000000000000000000002609625300000000000000000000330975000000000000000000000000002702485900000000000000000000330962500000000000000000000000002783008400000000000000000000330950000000000000000000000000002863716900000000000000000000330937500000000000000000000000002638044200000000000000000000330925000000000000000000000000002678275300000000000000000000330912500000000000000000000000002712478000000000000000000000330900000000000000000000000000002636877100000000000000000000330887500000000000000000000000002422829000000000000000000000330875000000000000000000000000002739215500000000000000000000330862500000000000000000000000002758151200000000000000000000330850000000000000000000000000002568910500000000000000000000330837500000000000000000000000002474212200000000000000000000330825000000000000000000000000002623453300000000000000000000330812500000000000000000000000002783105100000000000000000000330800000000000000000000000000002732697300000000000000000000330787500000000000000000000000002708458400000000000000000000330775000000000000000000000000002738051400000000000000000000330762500000000000000000000000002602143400000000000000000000330750000000000000000000000000002712241500000000000000000000330737500000000000000000000000002610499200000000000000000000330725000000000000000000000000002657882900000000000000000000330712500000000000000000000000002574679100000000000000000000330700000000000000000000000000002574026500000000000000000000330687500000000000000000000000002448761200000000000000000000330675000000000000000000000000002584980300000000000000000000330662500000000000000000000000002576942300000000000000000000330650000000000000000000000000002627119800000000000000000000330637500000000000000000000000003802951500000000000000000000330625000000000000000000000000003917468500000000000000000000330612500000000000000000000000002737365000000000000000000000330600000000000000000000,
    2644707300000000000000000000332187500000000000000000000000002516741600000000000000000000332175000000000000000000000000002487308000000000000000000000332162500000000000000000000000002465351700000000000000000000332150000000000000000000000000002388394800000000000000000000332137500000000000000000000000002654175400000000000000000000332125000000000000000000000000002662291600000000000000000000332112500000000000000000000000003368490100000000000000000000332100000000000000000000000000004545155600000000000000000000332087500000000000000000000000007208327800000000000000000000332075000000000000000000000000005870497400000000000000000000332062500000000000000000000000004358475900000000000000000000332050000000000000000000000000005107714000000000000000000000332037500000000000000000000000002937599400000000000000000000332025000000000000000000000000002565443000000000000000000000332012500000000000000000000000002591661100000000000000000000332000000000000000000000000000002710199000000000000000000000331987500000000000000000000000002714355800000000000000000000331975000000000000000000000000002550135700000000000000000000331962500000000000000000000000002537284800000000000000000000331950000000000000000000000000006968224800000000000000000000331937500000000000000000000000013843836000000000000000000000331925000000000000000000000000008202583500000000000000000000331912500000000000000000000000002715812700000000000000000000331900000000000000000000000000002474471100000000000000000000331887500000000000000000000000002320967300000000000000000000331875000000000000000000000000002408246500000000000000000000331862500000000000000000000000002459912700000000000000000000331850000000000000000000000000002349444600000000000000000000331837500000000000000000000000002498572500000000000000000000331825000000000000000000000000002815701300000000000000000000331812500000000000000000000000002590442700000000000000000000331800000000000000000000000000002480112800000000000000000000331787500000000000000000000000002623404900000000000000000000331775000000000000000000000000002711429500000000000000000000331762500000000000000000000000002548437600000000000000000000331750000000000000000000000000002650770600000000000000000000331737500000000000000000000000002710237400000000000000000000331725000000000000000000000000002605423200000000000000000000331712500000000000000000000000002456594400000000000000000000331700000000000000000000000000002598798200000000000000000000331687500000000000000000000000002598098300000000000000000000331675000000000000000000000000002644396900000000000000000000331662500000000000000000000000002738347000000000000000000000331650000000000000000000000000002686338100000000000000000000331637500000000000000000000000002574445500000000000000000000331625000000000000000000000000002586836900000000000000000000331612500000000000000000000000002631509800000000000000000000331600000000000000000000000000002535441300000000000000000000331587500000000000000000000000002587173200000000000000000000331575000000000000000000000000002561130600000000000000000000331562500000000000000000000000002636532800000000000000000000331550000000000000000000000000002575189800000000000000000000331537500000000000000000000000002617865700000000000000000000331525000000000000000000000000002736419600000000000000000000331512500000000000000000000000002707014200000000000000000000331500000000000000000000000000002566132300000000000000000000331487500000000000000000000000002414027100000000000000000000331475000000000000000000000000002453448800000000000000000000331462500000000000000000000000002480508200000000000000000000331450000000000000000000000000002509342400000000000000000000331437500000000000000000000000002654664500000000000000000000331425000000000000000000000000002888208400000000000000000000331412500000000000000000000000002639820600000000000000000000331400000000000000000000,
    3030947700000000000000000000332987500000000000000000000000006056501300000000000000000000332975000000000000000000000000005642275100000000000000000000332962500000000000000000000000002634104900000000000000000000332950000000000000000000000000002650441100000000000000000000332937500000000000000000000000006324181000000000000000000000332925000000000000000000000000008772509600000000000000000000332912500000000000000000000000003968922600000000000000000000332900000000000000000000000000002481899400000000000000000000332887500000000000000000000000002551575700000000000000000000332875000000000000000000000000002564441100000000000000000000332862500000000000000000000000002423582200000000000000000000332850000000000000000000000000002487381900000000000000000000332837500000000000000000000000002717653700000000000000000000332825000000000000000000000000002592926200000000000000000000332812500000000000000000000000002552492000000000000000000000332800000000000000000000000000002643754800000000000000000000332787500000000000000000000000002605056900000000000000000000332775000000000000000000000000002487223400000000000000000000332762500000000000000000000000002460081800000000000000000000332750000000000000000000000000002427482500000000000000000000332737500000000000000000000000002679935400000000000000000000332725000000000000000000000000002555267000000000000000000000332712500000000000000000000000002418714200000000000000000000332700000000000000000000000000002553014800000000000000000000332687500000000000000000000000002614708800000000000000000000332675000000000000000000000000002550386400000000000000000000332662500000000000000000000000002569787700000000000000000000332650000000000000000000000000002706732800000000000000000000332637500000000000000000000000002721379600000000000000000000332625000000000000000000000000002648008800000000000000000000332612500000000000000000000000002785919400000000000000000000332600000000000000000000000000002714618800000000000000000000332587500000000000000000000000002556725300000000000000000000332575000000000000000000000000002553250900000000000000000000332562500000000000000000000000002592298100000000000000000000332550000000000000000000000000002588088500000000000000000000332537500000000000000000000000002689356300000000000000000000332525000000000000000000000000002596426400000000000000000000332512500000000000000000000000002605522400000000000000000000332500000000000000000000000000002678867700000000000000000000332487500000000000000000000000002614642600000000000000000000332475000000000000000000000000002698879300000000000000000000332462500000000000000000000000002629476300000000000000000000332450000000000000000000000000002632854800000000000000000000332437500000000000000000000000002542881200000000000000000000332425000000000000000000000000002577021600000000000000000000332412500000000000000000000000002562368200000000000000000000332400000000000000000000000000002449575000000000000000000000332387500000000000000000000000002592126000000000000000000000332375000000000000000000000000002430654800000000000000000000332362500000000000000000000000002522442400000000000000000000332350000000000000000000000000002413503300000000000000000000332337500000000000000000000000002415196200000000000000000000332325000000000000000000000000002507976400000000000000000000332312500000000000000000000000002719188200000000000000000000332300000000000000000000000000002549821900000000000000000000332287500000000000000000000000002545753100000000000000000000332275000000000000000000000000002466270500000000000000000000332262500000000000000000000000002371036900000000000000000000332250000000000000000000000000002491053700000000000000000000332237500000000000000000000000002717252800000000000000000000332225000000000000000000000000002618068400000000000000000000332212500000000000000000000000002348713800000000000000000000332200000000000000000000,
    2616846500000000000000000000333787500000000000000000000000002725476600000000000000000000333775000000000000000000000000002485183800000000000000000000333762500000000000000000000000002489515600000000000000000000333750000000000000000000000000002635011300000000000000000000333737500000000000000000000000002531919300000000000000000000333725000000000000000000000000002350185300000000000000000000333712500000000000000000000000002475359300000000000000000000333700000000000000000000000000002767121400000000000000000000333687500000000000000000000000002943942400000000000000000000333675000000000000000000000000002973637900000000000000000000333662500000000000000000000000002813043800000000000000000000333650000000000000000000000000002718252700000000000000000000333637500000000000000000000000002819900000000000000000000000333625000000000000000000000000002777007800000000000000000000333612500000000000000000000000002582361600000000000000000000333600000000000000000000000000002420821700000000000000000000333587500000000000000000000000003170189300000000000000000000333575000000000000000000000000011054493000000000000000000000333562500000000000000000000000011380974000000000000000000000333550000000000000000000000000003497132800000000000000000000333537500000000000000000000000002611286700000000000000000000333525000000000000000000000000002569733100000000000000000000333512500000000000000000000000002603121800000000000000000000333500000000000000000000000000002863326400000000000000000000333487500000000000000000000000002951260900000000000000000000333475000000000000000000000000002941095500000000000000000000333462500000000000000000000000002724899600000000000000000000333450000000000000000000000000002711892600000000000000000000333437500000000000000000000000002774099100000000000000000000333425000000000000000000000000002654784800000000000000000000333412500000000000000000000000002394238000000000000000000000333400000000000000000000000000002697624100000000000000000000333387500000000000000000000000003042343200000000000000000000333375000000000000000000000000002709514200000000000000000000333362500000000000000000000000003106213800000000000000000000333350000000000000000000000000003366562900000000000000000000333337500000000000000000000000003263193000000000000000000000333325000000000000000000000000002976552600000000000000000000333312500000000000000000000000002771561600000000000000000000333300000000000000000000000000002606865300000000000000000000333287500000000000000000000000002424172700000000000000000000333275000000000000000000000000003824688100000000000000000000333262500000000000000000000000007161072300000000000000000000333250000000000000000000000000004853289800000000000000000000333237500000000000000000000000002680551200000000000000000000333225000000000000000000000000002604440300000000000000000000333212500000000000000000000000002704036800000000000000000000333200000000000000000000000000002656259100000000000000000000333187500000000000000000000000002479099200000000000000000000333175000000000000000000000000002529770900000000000000000000333162500000000000000000000000002589330800000000000000000000333150000000000000000000000000002529050600000000000000000000333137500000000000000000000000002545216500000000000000000000333125000000000000000000000000002861717100000000000000000000333112500000000000000000000000003616815500000000000000000000333100000000000000000000000000002750372900000000000000000000333087500000000000000000000000002438161700000000000000000000333075000000000000000000000000002478179300000000000000000000333062500000000000000000000000002547578200000000000000000000333050000000000000000000000000002660123700000000000000000000333037500000000000000000000000002522824200000000000000000000333025000000000000000000000000002425852900000000000000000000333012500000000000000000000000002535370800000000000000000000333000000000000000000000,
    2630656900000000000000000000334587500000000000000000000000002617007700000000000000000000334575000000000000000000000000002669412100000000000000000000334562500000000000000000000000002482380100000000000000000000334550000000000000000000000000002557466100000000000000000000334537500000000000000000000000002772515400000000000000000000334525000000000000000000000000002839033300000000000000000000334512500000000000000000000000002821509200000000000000000000334500000000000000000000000000002836081200000000000000000000334487500000000000000000000000002763542200000000000000000000334475000000000000000000000000002611567200000000000000000000334462500000000000000000000000002656732200000000000000000000334450000000000000000000000000002608323300000000000000000000334437500000000000000000000000002453570400000000000000000000334425000000000000000000000000002689522100000000000000000000334412500000000000000000000000002744276400000000000000000000334400000000000000000000000000002582413200000000000000000000334387500000000000000000000000002535702600000000000000000000334375000000000000000000000000002527587400000000000000000000334362500000000000000000000000002564151200000000000000000000334350000000000000000000000000002603352300000000000000000000334337500000000000000000000000002538241700000000000000000000334325000000000000000000000000002528312700000000000000000000334312500000000000000000000000002518963600000000000000000000334300000000000000000000000000002523272300000000000000000000334287500000000000000000000000002603778700000000000000000000334275000000000000000000000000002745036300000000000000000000334262500000000000000000000000002414017000000000000000000000334250000000000000000000000000002554878900000000000000000000334237500000000000000000000000002788163800000000000000000000334225000000000000000000000000002916112900000000000000000000334212500000000000000000000000002776797100000000000000000000334200000000000000000000000000002527460300000000000000000000334187500000000000000000000000002520385500000000000000000000334175000000000000000000000000002641522800000000000000000000334162500000000000000000000000002617815300000000000000000000334150000000000000000000000000002638140600000000000000000000334137500000000000000000000000002483465500000000000000000000334125000000000000000000000000002440985500000000000000000000334112500000000000000000000000002561246100000000000000000000334100000000000000000000000000002733092200000000000000000000334087500000000000000000000000002591136900000000000000000000334075000000000000000000000000002600329400000000000000000000334062500000000000000000000000002607904700000000000000000000334050000000000000000000000000002543731100000000000000000000334037500000000000000000000000002611417000000000000000000000334025000000000000000000000000002692158300000000000000000000334012500000000000000000000000002677714800000000000000000000334000000000000000000000000000002702388100000000000000000000333987500000000000000000000000003044362400000000000000000000333975000000000000000000000000002971574800000000000000000000333962500000000000000000000000002882420000000000000000000000333950000000000000000000000000002864793200000000000000000000333937500000000000000000000000002697178300000000000000000000333925000000000000000000000000002736782200000000000000000000333912500000000000000000000000002729616100000000000000000000333900000000000000000000000000002753278300000000000000000000333887500000000000000000000000003993529300000000000000000000333875000000000000000000000000007278465700000000000000000000333862500000000000000000000000004640022700000000000000000000333850000000000000000000000000002889662200000000000000000000333837500000000000000000000000002655217800000000000000000000333825000000000000000000000000002718336500000000000000000000333812500000000000000000000000002747350700000000000000000000333800000000000000000000,
    2646203700000000000000000000335387500000000000000000000000002689725200000000000000000000335375000000000000000000000000002669167200000000000000000000335362500000000000000000000000002646611000000000000000000000335350000000000000000000000000002414400300000000000000000000335337500000000000000000000000002547828700000000000000000000335325000000000000000000000000002663799300000000000000000000335312500000000000000000000000002680288100000000000000000000335300000000000000000000000000002577669400000000000000000000335287500000000000000000000000002570185700000000000000000000335275000000000000000000000000002589755300000000000000000000335262500000000000000000000000002700717900000000000000000000335250000000000000000000000000003049428300000000000000000000335237500000000000000000000000002845875600000000000000000000335225000000000000000000000000002611397000000000000000000000335212500000000000000000000000002691946000000000000000000000335200000000000000000000000000002343419800000000000000000000335187500000000000000000000000002180226900000000000000000000335175000000000000000000000000002364119200000000000000000000335162500000000000000000000000002584032700000000000000000000335150000000000000000000000000002614124500000000000000000000335137500000000000000000000000002612914800000000000000000000335125000000000000000000000000002757794200000000000000000000335112500000000000000000000000002952388900000000000000000000335100000000000000000000000000002913901000000000000000000000335087500000000000000000000000002596615100000000000000000000335075000000000000000000000000002661770200000000000000000000335062500000000000000000000000003172188200000000000000000000335050000000000000000000000000005384151700000000000000000000335037500000000000000000000000004864021900000000000000000000335025000000000000000000000000002677364800000000000000000000335012500000000000000000000000002595308000000000000000000000335000000000000000000000000000002459691900000000000000000000334987500000000000000000000000002542780500000000000000000000334975000000000000000000000000002653196900000000000000000000334962500000000000000000000000002756839800000000000000000000334950000000000000000000000000002708993000000000000000000000334937500000000000000000000000002660453100000000000000000000334925000000000000000000000000002833315400000000000000000000334912500000000000000000000000005528727700000000000000000000334900000000000000000000000000006450925100000000000000000000334887500000000000000000000000002945655800000000000000000000334875000000000000000000000000002647411300000000000000000000334862500000000000000000000000002529264700000000000000000000334850000000000000000000000000002330622300000000000000000000334837500000000000000000000000002486836400000000000000000000334825000000000000000000000000002740068000000000000000000000334812500000000000000000000000002621956800000000000000000000334800000000000000000000000000002560011200000000000000000000334787500000000000000000000000002509638900000000000000000000334775000000000000000000000000002626447200000000000000000000334762500000000000000000000000002655838100000000000000000000334750000000000000000000000000003321712500000000000000000000334737500000000000000000000000002623500500000000000000000000334725000000000000000000000000002363495900000000000000000000334712500000000000000000000000002491351500000000000000000000334700000000000000000000000000002508463600000000000000000000334687500000000000000000000000002650660700000000000000000000334675000000000000000000000000002712250900000000000000000000334662500000000000000000000000002696028100000000000000000000334650000000000000000000000000002847328100000000000000000000334637500000000000000000000000002679192200000000000000000000334625000000000000000000000000002658256400000000000000000000334612500000000000000000000000002715309200000000000000000000334600000000000000000000,
    4255781400000000000000000000336187500000000000000000000000002586330400000000000000000000336175000000000000000000000000002786806300000000000000000000336162500000000000000000000000002676776500000000000000000000336150000000000000000000000000002792389000000000000000000000336137500000000000000000000000002887116000000000000000000000336125000000000000000000000000003115772100000000000000000000336112500000000000000000000000006696909400000000000000000000336100000000000000000000000000006252640900000000000000000000336087500000000000000000000000002824817000000000000000000000336075000000000000000000000000002686963600000000000000000000336062500000000000000000000000002380810300000000000000000000336050000000000000000000000000002665489500000000000000000000336037500000000000000000000000002686662800000000000000000000336025000000000000000000000000002518472200000000000000000000336012500000000000000000000000002574930300000000000000000000336000000000000000000000000000002754176400000000000000000000335987500000000000000000000000002683820500000000000000000000335975000000000000000000000000002348084300000000000000000000335962500000000000000000000000002558824100000000000000000000335950000000000000000000000000002701461400000000000000000000335937500000000000000000000000002627068000000000000000000000335925000000000000000000000000002439362600000000000000000000335912500000000000000000000000002532344300000000000000000000335900000000000000000000000000002570670700000000000000000000335887500000000000000000000000002702834200000000000000000000335875000000000000000000000000002538851200000000000000000000335862500000000000000000000000002549736600000000000000000000335850000000000000000000000000002530161700000000000000000000335837500000000000000000000000002553241200000000000000000000335825000000000000000000000000002767915400000000000000000000335812500000000000000000000000003057891400000000000000000000335800000000000000000000000000002790597100000000000000000000335787500000000000000000000000002406510700000000000000000000335775000000000000000000000000002537299100000000000000000000335762500000000000000000000000002422707000000000000000000000335750000000000000000000000000002361364700000000000000000000335737500000000000000000000000002587418400000000000000000000335725000000000000000000000000002452895900000000000000000000335712500000000000000000000000002234139500000000000000000000335700000000000000000000000000002295022600000000000000000000335687500000000000000000000000002409669500000000000000000000335675000000000000000000000000002662899800000000000000000000335662500000000000000000000000002658036600000000000000000000335650000000000000000000000000002716858900000000000000000000335637500000000000000000000000002753961600000000000000000000335625000000000000000000000000002602942000000000000000000000335612500000000000000000000000002589608900000000000000000000335600000000000000000000000000002673183100000000000000000000335587500000000000000000000000002582201000000000000000000000335575000000000000000000000000002600775400000000000000000000335562500000000000000000000000002713515900000000000000000000335550000000000000000000000000002790847500000000000000000000335537500000000000000000000000002524209500000000000000000000335525000000000000000000000000002576025000000000000000000000335512500000000000000000000000002547181500000000000000000000335500000000000000000000000000002552758900000000000000000000335487500000000000000000000000002624561700000000000000000000335475000000000000000000000000002718300000000000000000000000335462500000000000000000000000002510152900000000000000000000335450000000000000000000000000002439256900000000000000000000335437500000000000000000000000002573032400000000000000000000335425000000000000000000000000002689426600000000000000000000335412500000000000000000000000002574484400000000000000000000335400000000000000000000,
    7506394000000000000000000000336987500000000000000000000000006906509000000000000000000000336975000000000000000000000000003869878000000000000000000000336962500000000000000000000000002747043500000000000000000000336950000000000000000000000000002436782900000000000000000000336937500000000000000000000000002523507300000000000000000000336925000000000000000000000000002595428100000000000000000000336912500000000000000000000000002863156200000000000000000000336900000000000000000000000000005857432900000000000000000000336887500000000000000000000000006058088800000000000000000000336875000000000000000000000000002927014400000000000000000000336862500000000000000000000000002598371500000000000000000000336850000000000000000000000000002827459600000000000000000000336837500000000000000000000000002957845500000000000000000000336825000000000000000000000000003271531400000000000000000000336812500000000000000000000000004150558500000000000000000000336800000000000000000000000000003261924500000000000000000000336787500000000000000000000000002631019600000000000000000000336775000000000000000000000000002581696900000000000000000000336762500000000000000000000000002548829100000000000000000000336750000000000000000000000000002537169400000000000000000000336737500000000000000000000000002617534700000000000000000000336725000000000000000000000000003832267200000000000000000000336712500000000000000000000000004470970400000000000000000000336700000000000000000000000000002953909400000000000000000000336687500000000000000000000000002582733000000000000000000000336675000000000000000000000000002477620300000000000000000000336662500000000000000000000000002505826700000000000000000000336650000000000000000000000000002322784800000000000000000000336637500000000000000000000000002397327000000000000000000000336625000000000000000000000000002382134400000000000000000000336612500000000000000000000000002381237500000000000000000000336600000000000000000000000000002672794600000000000000000000336587500000000000000000000000002410629300000000000000000000336575000000000000000000000000002512928300000000000000000000336562500000000000000000000000002443370100000000000000000000336550000000000000000000000000002579190800000000000000000000336537500000000000000000000000002617994800000000000000000000336525000000000000000000000000002673311300000000000000000000336512500000000000000000000000002706211100000000000000000000336500000000000000000000000000002574741100000000000000000000336487500000000000000000000000002594090100000000000000000000336475000000000000000000000000002509813000000000000000000000336462500000000000000000000000002319547000000000000000000000336450000000000000000000000000002348076500000000000000000000336437500000000000000000000000002796226200000000000000000000336425000000000000000000000000002778824200000000000000000000336412500000000000000000000000002549478100000000000000000000336400000000000000000000000000002673773400000000000000000000336387500000000000000000000000002589031900000000000000000000336375000000000000000000000000002465891400000000000000000000336362500000000000000000000000002477619700000000000000000000336350000000000000000000000000002707478700000000000000000000336337500000000000000000000000002738387800000000000000000000336325000000000000000000000000002688087700000000000000000000336312500000000000000000000000002560027900000000000000000000336300000000000000000000000000002423652000000000000000000000336287500000000000000000000000002415284300000000000000000000336275000000000000000000000000002598082700000000000000000000336262500000000000000000000000002585283800000000000000000000336250000000000000000000000000002548649900000000000000000000336237500000000000000000000000002627700300000000000000000000336225000000000000000000000000005430591600000000000000000000336212500000000000000000000000008087443500000000000000000000336200000000000000000000,
    2700929400000000000000000000337787500000000000000000000000002713609300000000000000000000337775000000000000000000000000002794515500000000000000000000337762500000000000000000000000002788600500000000000000000000337750000000000000000000000000002873922500000000000000000000337737500000000000000000000000002766147800000000000000000000337725000000000000000000000000002424456000000000000000000000337712500000000000000000000000002776185500000000000000000000337700000000000000000000000000003025512700000000000000000000337687500000000000000000000000002836650700000000000000000000337675000000000000000000000000002665369500000000000000000000337662500000000000000000000000002648661900000000000000000000337650000000000000000000000000002767710800000000000000000000337637500000000000000000000000002647334700000000000000000000337625000000000000000000000000002686246700000000000000000000337612500000000000000000000000002829772100000000000000000000337600000000000000000000000000002717174800000000000000000000337587500000000000000000000000002735058200000000000000000000337575000000000000000000000000002706831600000000000000000000337562500000000000000000000000002872557100000000000000000000337550000000000000000000000000002714078900000000000000000000337537500000000000000000000000002586727300000000000000000000337525000000000000000000000000002601312800000000000000000000337512500000000000000000000000002729761400000000000000000000337500000000000000000000000000002816924500000000000000000000337487500000000000000000000000002907439100000000000000000000337475000000000000000000000000002784833900000000000000000000337462500000000000000000000000002898599100000000000000000000337450000000000000000000000000002739253800000000000000000000337437500000000000000000000000002729734200000000000000000000337425000000000000000000000000002803921800000000000000000000337412500000000000000000000000002759668100000000000000000000337400000000000000000000000000002834739200000000000000000000337387500000000000000000000000002929719600000000000000000000337375000000000000000000000000002910020000000000000000000000337362500000000000000000000000002778034900000000000000000000337350000000000000000000000000002700002700000000000000000000337337500000000000000000000000003012672200000000000000000000337325000000000000000000000000002926209700000000000000000000337312500000000000000000000000002624984600000000000000000000337300000000000000000000000000002725602000000000000000000000337287500000000000000000000000002827619900000000000000000000337275000000000000000000000000002726591900000000000000000000337262500000000000000000000000002630964200000000000000000000337250000000000000000000000000002700764200000000000000000000337237500000000000000000000000002861853900000000000000000000337225000000000000000000000000002812047100000000000000000000337212500000000000000000000000002682545800000000000000000000337200000000000000000000000000002765621300000000000000000000337187500000000000000000000000002882564800000000000000000000337175000000000000000000000000002544396800000000000000000000337162500000000000000000000000002754209700000000000000000000337150000000000000000000000000002708989700000000000000000000337137500000000000000000000000002671822500000000000000000000337125000000000000000000000000002691321400000000000000000000337112500000000000000000000000002726600400000000000000000000337100000000000000000000000000002703785400000000000000000000337087500000000000000000000000002658760700000000000000000000337075000000000000000000000000002705642400000000000000000000337062500000000000000000000000002612208500000000000000000000337050000000000000000000000000002715966700000000000000000000337037500000000000000000000000002895129500000000000000000000337025000000000000000000000000002950798800000000000000000000337012500000000000000000000000003701894900000000000000000000337000000000000000000000,
    2600533800000000000000000000338587500000000000000000000000002654328200000000000000000000338575000000000000000000000000002607598400000000000000000000338562500000000000000000000000002591811400000000000000000000338550000000000000000000000000002669325700000000000000000000338537500000000000000000000000002685893400000000000000000000338525000000000000000000000000002736133400000000000000000000338512500000000000000000000000002691227100000000000000000000338500000000000000000000000000002671608300000000000000000000338487500000000000000000000000002737937100000000000000000000338475000000000000000000000000002919023200000000000000000000338462500000000000000000000000002692947100000000000000000000338450000000000000000000000000002404534700000000000000000000338437500000000000000000000000002507805500000000000000000000338425000000000000000000000000002830358500000000000000000000338412500000000000000000000000002810903100000000000000000000338400000000000000000000000000002623971000000000000000000000338387500000000000000000000000002687847200000000000000000000338375000000000000000000000000002582643400000000000000000000338362500000000000000000000000002581605700000000000000000000338350000000000000000000000000002628445900000000000000000000338337500000000000000000000000002697451700000000000000000000338325000000000000000000000000002448377800000000000000000000338312500000000000000000000000002703249300000000000000000000338300000000000000000000000000002842934700000000000000000000338287500000000000000000000000002906339200000000000000000000338275000000000000000000000000002890754400000000000000000000338262500000000000000000000000002638482200000000000000000000338250000000000000000000000000002523799800000000000000000000338237500000000000000000000000002512109600000000000000000000338225000000000000000000000000002699078500000000000000000000338212500000000000000000000000002839472700000000000000000000338200000000000000000000000000002793426900000000000000000000338187500000000000000000000000002755668600000000000000000000338175000000000000000000000000002877931700000000000000000000338162500000000000000000000000002800673500000000000000000000338150000000000000000000000000002767290600000000000000000000338137500000000000000000000000002699682400000000000000000000338125000000000000000000000000002648805500000000000000000000338112500000000000000000000000002592959600000000000000000000338100000000000000000000000000002690973000000000000000000000338087500000000000000000000000002825247800000000000000000000338075000000000000000000000000002702077000000000000000000000338062500000000000000000000000002701892400000000000000000000338050000000000000000000000000002705533000000000000000000000338037500000000000000000000000002677623700000000000000000000338025000000000000000000000000002444708500000000000000000000338012500000000000000000000000002521163000000000000000000000338000000000000000000000000000002573749600000000000000000000337987500000000000000000000000002610394300000000000000000000337975000000000000000000000000002657546600000000000000000000337962500000000000000000000000002467771500000000000000000000337950000000000000000000000000002424490600000000000000000000337937500000000000000000000000002725110000000000000000000000337925000000000000000000000000002701667800000000000000000000337912500000000000000000000000002600090200000000000000000000337900000000000000000000000000002747861800000000000000000000337887500000000000000000000000002619740100000000000000000000337875000000000000000000000000002759800000000000000000000000337862500000000000000000000000002885127000000000000000000000337850000000000000000000000000002756944100000000000000000000337837500000000000000000000000002571919500000000000000000000337825000000000000000000000000002631613900000000000000000000337812500000000000000000000000002561566100000000000000000000337800000000000000000000,
    2738555100000000000000000000339387500000000000000000000000004069265900000000000000000000339375000000000000000000000000005510185400000000000000000000339362500000000000000000000000003263479800000000000000000000339350000000000000000000000000002599356200000000000000000000339337500000000000000000000000002557477700000000000000000000339325000000000000000000000000002549736500000000000000000000339312500000000000000000000000002658926800000000000000000000339300000000000000000000000000002838923700000000000000000000339287500000000000000000000000002817680100000000000000000000339275000000000000000000000000002753190900000000000000000000339262500000000000000000000000002589972000000000000000000000339250000000000000000000000000002503471100000000000000000000339237500000000000000000000000002531813700000000000000000000339225000000000000000000000000002583770900000000000000000000339212500000000000000000000000002691380800000000000000000000339200000000000000000000000000002800528700000000000000000000339187500000000000000000000000002603844100000000000000000000339175000000000000000000000000002616266700000000000000000000339162500000000000000000000000002513004300000000000000000000339150000000000000000000000000002599080000000000000000000000339137500000000000000000000000002615222600000000000000000000339125000000000000000000000000002883677400000000000000000000339112500000000000000000000000002798971600000000000000000000339100000000000000000000000000002883651200000000000000000000339087500000000000000000000000002646565400000000000000000000339075000000000000000000000000002379277900000000000000000000339062500000000000000000000000002689035500000000000000000000339050000000000000000000000000002941806700000000000000000000339037500000000000000000000000002807417900000000000000000000339025000000000000000000000000002660003500000000000000000000339012500000000000000000000000002620229600000000000000000000339000000000000000000000000000002741235900000000000000000000338987500000000000000000000000002864008100000000000000000000338975000000000000000000000000002993623900000000000000000000338962500000000000000000000000002963446000000000000000000000338950000000000000000000000000003180507000000000000000000000338937500000000000000000000000003210342100000000000000000000338925000000000000000000000000003048964800000000000000000000338912500000000000000000000000002943265300000000000000000000338900000000000000000000000000002759499200000000000000000000338887500000000000000000000000002909717800000000000000000000338875000000000000000000000000002811180700000000000000000000338862500000000000000000000000002669681300000000000000000000338850000000000000000000000000002744053500000000000000000000338837500000000000000000000000002769817300000000000000000000338825000000000000000000000000002757986600000000000000000000338812500000000000000000000000002822895300000000000000000000338800000000000000000000000000002790902900000000000000000000338787500000000000000000000000002595772600000000000000000000338775000000000000000000000000002801057600000000000000000000338762500000000000000000000000002870816400000000000000000000338750000000000000000000000000002817586000000000000000000000338737500000000000000000000000002742502500000000000000000000338725000000000000000000000000002727740400000000000000000000338712500000000000000000000000002931538700000000000000000000338700000000000000000000000000002904094300000000000000000000338687500000000000000000000000002831442000000000000000000000338675000000000000000000000000002765634100000000000000000000338662500000000000000000000000002541589700000000000000000000338650000000000000000000000000002548614000000000000000000000338637500000000000000000000000002713200200000000000000000000338625000000000000000000000000002650908400000000000000000000338612500000000000000000000000002770205600000000000000000000338600000000000000000000,
    2798604900000000000000000000340187500000000000000000000000002766699500000000000000000000340175000000000000000000000000003077005800000000000000000000340162500000000000000000000000003046738100000000000000000000340150000000000000000000000000002876903200000000000000000000340137500000000000000000000000002792423700000000000000000000340125000000000000000000000000002782439500000000000000000000340112500000000000000000000000002689081400000000000000000000340100000000000000000000000000002760055200000000000000000000340087500000000000000000000000002712367000000000000000000000340075000000000000000000000000002677180500000000000000000000340062500000000000000000000000002599460600000000000000000000340050000000000000000000000000002563766900000000000000000000340037500000000000000000000000002511880600000000000000000000340025000000000000000000000000002645034000000000000000000000340012500000000000000000000000002863181000000000000000000000340000000000000000000000000000002740388500000000000000000000339987500000000000000000000000002731747500000000000000000000339975000000000000000000000000002563328000000000000000000000339962500000000000000000000000002523688500000000000000000000339950000000000000000000000000002723712000000000000000000000339937500000000000000000000000002952867400000000000000000000339925000000000000000000000000002867778900000000000000000000339912500000000000000000000000002835531300000000000000000000339900000000000000000000000000002861544700000000000000000000339887500000000000000000000000002610085100000000000000000000339875000000000000000000000000002612537200000000000000000000339862500000000000000000000000002559082500000000000000000000339850000000000000000000000000002665050000000000000000000000339837500000000000000000000000002663782900000000000000000000339825000000000000000000000000002734130200000000000000000000339812500000000000000000000000002733744200000000000000000000339800000000000000000000000000003107172600000000000000000000339787500000000000000000000000002986798800000000000000000000339775000000000000000000000000002849145700000000000000000000339762500000000000000000000000002861775100000000000000000000339750000000000000000000000000002845088100000000000000000000339737500000000000000000000000002952010300000000000000000000339725000000000000000000000000009075973300000000000000000000339712500000000000000000000000013928717000000000000000000000339700000000000000000000000000006179615300000000000000000000339687500000000000000000000000002938652500000000000000000000339675000000000000000000000000002679756000000000000000000000339662500000000000000000000000002604677100000000000000000000339650000000000000000000000000002814624100000000000000000000339637500000000000000000000000002970196800000000000000000000339625000000000000000000000000002838918600000000000000000000339612500000000000000000000000002714095500000000000000000000339600000000000000000000000000002723897900000000000000000000339587500000000000000000000000002750328100000000000000000000339575000000000000000000000000002776500700000000000000000000339562500000000000000000000000002788700200000000000000000000339550000000000000000000000000002842462500000000000000000000339537500000000000000000000000002744669100000000000000000000339525000000000000000000000000002877083200000000000000000000339512500000000000000000000000002867838700000000000000000000339500000000000000000000000000002745260700000000000000000000339487500000000000000000000000002875541900000000000000000000339475000000000000000000000000002715656500000000000000000000339462500000000000000000000000002658894600000000000000000000339450000000000000000000000000002943130700000000000000000000339437500000000000000000000000002955456100000000000000000000339425000000000000000000000000002930515600000000000000000000339412500000000000000000000000002836746800000000000000000000339400000000000000000000,
    2727130700000000000000000000340987500000000000000000000000003046649000000000000000000000340975000000000000000000000000003143125000000000000000000000340962500000000000000000000000003198747000000000000000000000340950000000000000000000000000002954175000000000000000000000340937500000000000000000000000002923524600000000000000000000340925000000000000000000000000002808119000000000000000000000340912500000000000000000000000002812351900000000000000000000340900000000000000000000000000002890094800000000000000000000340887500000000000000000000000003034056500000000000000000000340875000000000000000000000000003121987000000000000000000000340862500000000000000000000000003144954700000000000000000000340850000000000000000000000000003092379200000000000000000000340837500000000000000000000000003048410600000000000000000000340825000000000000000000000000002704925300000000000000000000340812500000000000000000000000002982748500000000000000000000340800000000000000000000000000003222529100000000000000000000340787500000000000000000000000003200316000000000000000000000340775000000000000000000000000003181442300000000000000000000340762500000000000000000000000002715681500000000000000000000340750000000000000000000000000002630255100000000000000000000340737500000000000000000000000002696957000000000000000000000340725000000000000000000000000002846540100000000000000000000340712500000000000000000000000002733851700000000000000000000340700000000000000000000000000002733117600000000000000000000340687500000000000000000000000002852186900000000000000000000340675000000000000000000000000003058984600000000000000000000340662500000000000000000000000002890532100000000000000000000340650000000000000000000000000002679267400000000000000000000340637500000000000000000000000002792931300000000000000000000340625000000000000000000000000002861312900000000000000000000340612500000000000000000000000002747646300000000000000000000340600000000000000000000000000002615082200000000000000000000340587500000000000000000000000002519896900000000000000000000340575000000000000000000000000002647999500000000000000000000340562500000000000000000000000002884922600000000000000000000340550000000000000000000000000003008319900000000000000000000340537500000000000000000000000002886232000000000000000000000340525000000000000000000000000002906730000000000000000000000340512500000000000000000000000003333657700000000000000000000340500000000000000000000000000003785131300000000000000000000340487500000000000000000000000003639927200000000000000000000340475000000000000000000000000003232270000000000000000000000340462500000000000000000000000003025489500000000000000000000340450000000000000000000000000003023118800000000000000000000340437500000000000000000000000002875142900000000000000000000340425000000000000000000000000003095164900000000000000000000340412500000000000000000000000003146150100000000000000000000340400000000000000000000000000002923069500000000000000000000340387500000000000000000000000002922488600000000000000000000340375000000000000000000000000002914839500000000000000000000340362500000000000000000000000002865308300000000000000000000340350000000000000000000000000002878046800000000000000000000340337500000000000000000000000002994443500000000000000000000340325000000000000000000000000002891952300000000000000000000340312500000000000000000000000002821349300000000000000000000340300000000000000000000000000002797994000000000000000000000340287500000000000000000000000003010623100000000000000000000340275000000000000000000000000002904478800000000000000000000340262500000000000000000000000002713669900000000000000000000340250000000000000000000000000002717258400000000000000000000340237500000000000000000000000002709621000000000000000000000340225000000000000000000000000002610005700000000000000000000340212500000000000000000000000002707856100000000000000000000340200000000000000000000,
    2868027100000000000000000000341787500000000000000000000000002782104600000000000000000000341775000000000000000000000000002721531600000000000000000000341762500000000000000000000000002859842900000000000000000000341750000000000000000000000000002783633800000000000000000000341737500000000000000000000000002581956300000000000000000000341725000000000000000000000000002833029000000000000000000000341712500000000000000000000000002806118700000000000000000000341700000000000000000000000000002910685000000000000000000000341687500000000000000000000000002669517300000000000000000000341675000000000000000000000000002649405700000000000000000000341662500000000000000000000000002561370400000000000000000000341650000000000000000000000000002511297900000000000000000000341637500000000000000000000000002709039200000000000000000000341625000000000000000000000000002748904600000000000000000000341612500000000000000000000000002709743100000000000000000000341600000000000000000000000000002925825900000000000000000000341587500000000000000000000000002999149800000000000000000000341575000000000000000000000000002969467600000000000000000000341562500000000000000000000000002743274300000000000000000000341550000000000000000000000000002731919700000000000000000000341537500000000000000000000000002750657000000000000000000000341525000000000000000000000000002880422800000000000000000000341512500000000000000000000000003007503000000000000000000000341500000000000000000000000000002901702200000000000000000000341487500000000000000000000000002888575600000000000000000000341475000000000000000000000000002818977700000000000000000000341462500000000000000000000000002782750000000000000000000000341450000000000000000000000000003053306900000000000000000000341437500000000000000000000000003154317700000000000000000000341425000000000000000000000000002860211700000000000000000000341412500000000000000000000000002669813400000000000000000000341400000000000000000000000000002888949000000000000000000000341387500000000000000000000000003068149300000000000000000000341375000000000000000000000000003342331100000000000000000000341362500000000000000000000000003183730100000000000000000000341350000000000000000000000000002932307600000000000000000000341337500000000000000000000000002851404800000000000000000000341325000000000000000000000000003159573800000000000000000000341312500000000000000000000000002965840800000000000000000000341300000000000000000000000000002995757000000000000000000000341287500000000000000000000000003101363300000000000000000000341275000000000000000000000000003194466400000000000000000000341262500000000000000000000000003233198600000000000000000000341250000000000000000000000000002969922300000000000000000000341237500000000000000000000000002940208600000000000000000000341225000000000000000000000000002936994200000000000000000000341212500000000000000000000000002771906100000000000000000000341200000000000000000000000000002864730900000000000000000000341187500000000000000000000000002924246700000000000000000000341175000000000000000000000000003128830600000000000000000000341162500000000000000000000000003191280500000000000000000000341150000000000000000000000000003007807600000000000000000000341137500000000000000000000000003061910000000000000000000000341125000000000000000000000000003142640000000000000000000000341112500000000000000000000000003034117400000000000000000000341100000000000000000000000000003115365200000000000000000000341087500000000000000000000000003061768900000000000000000000341075000000000000000000000000003185765500000000000000000000341062500000000000000000000000003152941000000000000000000000341050000000000000000000000000003021450500000000000000000000341037500000000000000000000000002993846400000000000000000000341025000000000000000000000000003052152900000000000000000000341012500000000000000000000000002895482300000000000000000000341000000000000000000000,
    2855945800000000000000000000342587500000000000000000000000002924472700000000000000000000342575000000000000000000000000002814788400000000000000000000342562500000000000000000000000002838840500000000000000000000342550000000000000000000000000002874769400000000000000000000342537500000000000000000000000002860054600000000000000000000342525000000000000000000000000002611096600000000000000000000342512500000000000000000000000002931522700000000000000000000342500000000000000000000000000002793152400000000000000000000342487500000000000000000000000002560469700000000000000000000342475000000000000000000000000002658072800000000000000000000342462500000000000000000000000002592501700000000000000000000342450000000000000000000000000002672850400000000000000000000342437500000000000000000000000002804951800000000000000000000342425000000000000000000000000002628739400000000000000000000342412500000000000000000000000002517145000000000000000000000342400000000000000000000000000002598194800000000000000000000342387500000000000000000000000002878687900000000000000000000342375000000000000000000000000002818239700000000000000000000342362500000000000000000000000002675843700000000000000000000342350000000000000000000000000002575714700000000000000000000342337500000000000000000000000002579981800000000000000000000342325000000000000000000000000002672962800000000000000000000342312500000000000000000000000002821078500000000000000000000342300000000000000000000000000002781424700000000000000000000342287500000000000000000000000002793661700000000000000000000342275000000000000000000000000002859225000000000000000000000342262500000000000000000000000002900977400000000000000000000342250000000000000000000000000002635675800000000000000000000342237500000000000000000000000002249516400000000000000000000342225000000000000000000000000002570801900000000000000000000342212500000000000000000000000002855291800000000000000000000342200000000000000000000000000002771913800000000000000000000342187500000000000000000000000002628576800000000000000000000342175000000000000000000000000002919905500000000000000000000342162500000000000000000000000002937233400000000000000000000342150000000000000000000000000002759604500000000000000000000342137500000000000000000000000002756290400000000000000000000342125000000000000000000000000002745712400000000000000000000342112500000000000000000000000002756751100000000000000000000342100000000000000000000000000002633743100000000000000000000342087500000000000000000000000002787897300000000000000000000342075000000000000000000000000002789682000000000000000000000342062500000000000000000000000002697479500000000000000000000342050000000000000000000000000002719447300000000000000000000342037500000000000000000000000002840923600000000000000000000342025000000000000000000000000002868913300000000000000000000342012500000000000000000000000002805686800000000000000000000342000000000000000000000000000002733788000000000000000000000341987500000000000000000000000002697190800000000000000000000341975000000000000000000000000002561806000000000000000000000341962500000000000000000000000002728908600000000000000000000341950000000000000000000000000002572691900000000000000000000341937500000000000000000000000002624621200000000000000000000341925000000000000000000000000002695847900000000000000000000341912500000000000000000000000002680398400000000000000000000341900000000000000000000000000002960886900000000000000000000341887500000000000000000000000002854802200000000000000000000341875000000000000000000000000002778530100000000000000000000341862500000000000000000000000002535713900000000000000000000341850000000000000000000000000002768483800000000000000000000341837500000000000000000000000002708944600000000000000000000341825000000000000000000000000002735691700000000000000000000341812500000000000000000000000002865578700000000000000000000341800000000000000000000,
    2767403600000000000000000000343387500000000000000000000000002718978800000000000000000000343375000000000000000000000000002577780000000000000000000000343362500000000000000000000000002734200300000000000000000000343350000000000000000000000000002856773700000000000000000000343337500000000000000000000000002621771400000000000000000000343325000000000000000000000000002607886600000000000000000000343312500000000000000000000000002677776700000000000000000000343300000000000000000000000000002685040300000000000000000000343287500000000000000000000000002504940400000000000000000000343275000000000000000000000000002717776500000000000000000000343262500000000000000000000000003182511300000000000000000000343250000000000000000000000000002851663100000000000000000000343237500000000000000000000000002714510000000000000000000000343225000000000000000000000000002768426300000000000000000000343212500000000000000000000000002576490200000000000000000000343200000000000000000000000000002708290000000000000000000000343187500000000000000000000000002510786300000000000000000000343175000000000000000000000000002572360100000000000000000000343162500000000000000000000000002610467300000000000000000000343150000000000000000000000000002533433600000000000000000000343137500000000000000000000000002480989400000000000000000000343125000000000000000000000000002477963400000000000000000000343112500000000000000000000000002513663900000000000000000000343100000000000000000000000000002632262100000000000000000000343087500000000000000000000000002673011300000000000000000000343075000000000000000000000000002510685400000000000000000000343062500000000000000000000000002535804600000000000000000000343050000000000000000000000000002773159200000000000000000000343037500000000000000000000000002930177300000000000000000000343025000000000000000000000000002855057100000000000000000000343012500000000000000000000000002778624700000000000000000000343000000000000000000000000000002726135200000000000000000000342987500000000000000000000000002742843800000000000000000000342975000000000000000000000000002733133600000000000000000000342962500000000000000000000000002599344000000000000000000000342950000000000000000000000000002577856700000000000000000000342937500000000000000000000000002350570200000000000000000000342925000000000000000000000000002445560000000000000000000000342912500000000000000000000000002631803100000000000000000000342900000000000000000000000000002796906800000000000000000000342887500000000000000000000000002947259000000000000000000000342875000000000000000000000000002767662000000000000000000000342862500000000000000000000000002705121900000000000000000000342850000000000000000000000000002745129200000000000000000000342837500000000000000000000000002770900500000000000000000000342825000000000000000000000000002748981400000000000000000000342812500000000000000000000000002577837200000000000000000000342800000000000000000000000000002537244000000000000000000000342787500000000000000000000000002660900100000000000000000000342775000000000000000000000000002756393900000000000000000000342762500000000000000000000000002565017000000000000000000000342750000000000000000000000000002657930500000000000000000000342737500000000000000000000000002776889900000000000000000000342725000000000000000000000000002700281300000000000000000000342712500000000000000000000000002544145500000000000000000000342700000000000000000000000000002664378500000000000000000000342687500000000000000000000000002584303700000000000000000000342675000000000000000000000000002741272800000000000000000000342662500000000000000000000000002612328000000000000000000000342650000000000000000000000000002729920100000000000000000000342637500000000000000000000000002871607600000000000000000000342625000000000000000000000000002751870900000000000000000000342612500000000000000000000000002854186400000000000000000000342600000000000000000000,
    2667222500000000000000000000344187500000000000000000000000002632269300000000000000000000344175000000000000000000000000002439847400000000000000000000344162500000000000000000000000002780099100000000000000000000344150000000000000000000000000002952540600000000000000000000344137500000000000000000000000002864070800000000000000000000344125000000000000000000000000002707784900000000000000000000344112500000000000000000000000002615241700000000000000000000344100000000000000000000000000002560866800000000000000000000344087500000000000000000000000002424046300000000000000000000344075000000000000000000000000002490824400000000000000000000344062500000000000000000000000002535236600000000000000000000344050000000000000000000000000002555551400000000000000000000344037500000000000000000000000002595757000000000000000000000344025000000000000000000000000002687788300000000000000000000344012500000000000000000000000002706002700000000000000000000344000000000000000000000000000002875931700000000000000000000343987500000000000000000000000002662477400000000000000000000343975000000000000000000000000002751320200000000000000000000343962500000000000000000000000002803944400000000000000000000343950000000000000000000000000002957183100000000000000000000343937500000000000000000000000002918163000000000000000000000343925000000000000000000000000002922511600000000000000000000343912500000000000000000000000002835976700000000000000000000343900000000000000000000000000002592212800000000000000000000343887500000000000000000000000002343812800000000000000000000343875000000000000000000000000002384401100000000000000000000343862500000000000000000000000002458542100000000000000000000343850000000000000000000000000002542534800000000000000000000343837500000000000000000000000002755022100000000000000000000343825000000000000000000000000002713320700000000000000000000343812500000000000000000000000002718377100000000000000000000343800000000000000000000000000002695372200000000000000000000343787500000000000000000000000002565580700000000000000000000343775000000000000000000000000002290149200000000000000000000343762500000000000000000000000002647984300000000000000000000343750000000000000000000000000002604863600000000000000000000343737500000000000000000000000002556470000000000000000000000343725000000000000000000000000002626804200000000000000000000343712500000000000000000000000002653741800000000000000000000343700000000000000000000000000002696019900000000000000000000343687500000000000000000000000002723187100000000000000000000343675000000000000000000000000002723865800000000000000000000343662500000000000000000000000002763444000000000000000000000343650000000000000000000000000002739714700000000000000000000343637500000000000000000000000002743307700000000000000000000343625000000000000000000000000002783067700000000000000000000343612500000000000000000000000002567975300000000000000000000343600000000000000000000000000002722314200000000000000000000343587500000000000000000000000002558494100000000000000000000343575000000000000000000000000002697191500000000000000000000343562500000000000000000000000002783380000000000000000000000343550000000000000000000000000002594688500000000000000000000343537500000000000000000000000002623593300000000000000000000343525000000000000000000000000002562382700000000000000000000343512500000000000000000000000002770408400000000000000000000343500000000000000000000000000002857840500000000000000000000343487500000000000000000000000002620185200000000000000000000343475000000000000000000000000002626282200000000000000000000343462500000000000000000000000002757045800000000000000000000343450000000000000000000000000002968362900000000000000000000343437500000000000000000000000002663284700000000000000000000343425000000000000000000000000002636713800000000000000000000343412500000000000000000000000002707810500000000000000000000343400000000000000000000,
    2692922000000000000000000000344987500000000000000000000000002729997800000000000000000000344975000000000000000000000000002640594600000000000000000000344962500000000000000000000000002623417400000000000000000000344950000000000000000000000000002758417100000000000000000000344937500000000000000000000000002831066500000000000000000000344925000000000000000000000000002699753300000000000000000000344912500000000000000000000000002514030800000000000000000000344900000000000000000000000000002615503900000000000000000000344887500000000000000000000000002726923700000000000000000000344875000000000000000000000000002878242400000000000000000000344862500000000000000000000000003018553600000000000000000000344850000000000000000000000000002818017500000000000000000000344837500000000000000000000000002703971600000000000000000000344825000000000000000000000000002670844500000000000000000000344812500000000000000000000000002777723800000000000000000000344800000000000000000000000000002651753300000000000000000000344787500000000000000000000000002632822700000000000000000000344775000000000000000000000000002790115800000000000000000000344762500000000000000000000000002732187300000000000000000000344750000000000000000000000000002768442900000000000000000000344737500000000000000000000000002623942700000000000000000000344725000000000000000000000000002662477600000000000000000000344712500000000000000000000000002691882200000000000000000000344700000000000000000000000000002582642700000000000000000000344687500000000000000000000000002772816400000000000000000000344675000000000000000000000000002886960500000000000000000000344662500000000000000000000000002761756300000000000000000000344650000000000000000000000000002727536400000000000000000000344637500000000000000000000000002640311400000000000000000000344625000000000000000000000000002601411300000000000000000000344612500000000000000000000000002719747100000000000000000000344600000000000000000000000000002752084900000000000000000000344587500000000000000000000000002809603600000000000000000000344575000000000000000000000000002702621300000000000000000000344562500000000000000000000000002531357800000000000000000000344550000000000000000000000000002618796100000000000000000000344537500000000000000000000000002675820500000000000000000000344525000000000000000000000000002677976400000000000000000000344512500000000000000000000000002692449300000000000000000000344500000000000000000000000000002678461000000000000000000000344487500000000000000000000000002852876200000000000000000000344475000000000000000000000000002891794400000000000000000000344462500000000000000000000000002586125000000000000000000000344450000000000000000000000000002556608100000000000000000000344437500000000000000000000000002657323200000000000000000000344425000000000000000000000000002849787300000000000000000000344412500000000000000000000000002788188100000000000000000000344400000000000000000000000000002590832500000000000000000000344387500000000000000000000000002661564200000000000000000000344375000000000000000000000000002789850700000000000000000000344362500000000000000000000000002705625700000000000000000000344350000000000000000000000000002619842800000000000000000000344337500000000000000000000000002551510300000000000000000000344325000000000000000000000000002488426700000000000000000000344312500000000000000000000000002563104300000000000000000000344300000000000000000000000000002613477700000000000000000000344287500000000000000000000000002726391200000000000000000000344275000000000000000000000000002677618100000000000000000000344262500000000000000000000000002743716100000000000000000000344250000000000000000000000000002735284100000000000000000000344237500000000000000000000000002772612500000000000000000000344225000000000000000000000000002794797500000000000000000000344212500000000000000000000000002675268500000000000000000000344200000000000000000000,
    2921505300000000000000000000345787500000000000000000000000002819070800000000000000000000345775000000000000000000000000002807904000000000000000000000345762500000000000000000000000002813085700000000000000000000345750000000000000000000000000002558568700000000000000000000345737500000000000000000000000002774506200000000000000000000345725000000000000000000000000002943077000000000000000000000345712500000000000000000000000003044204100000000000000000000345700000000000000000000000000003008382200000000000000000000345687500000000000000000000000002991684700000000000000000000345675000000000000000000000000002834571200000000000000000000345662500000000000000000000000002855133400000000000000000000345650000000000000000000000000002775198500000000000000000000345637500000000000000000000000002590251600000000000000000000345625000000000000000000000000002604525700000000000000000000345612500000000000000000000000002668647600000000000000000000345600000000000000000000000000002699105300000000000000000000345587500000000000000000000000002760708200000000000000000000345575000000000000000000000000002844871100000000000000000000345562500000000000000000000000002905201000000000000000000000345550000000000000000000000000002696405700000000000000000000345537500000000000000000000000002573204200000000000000000000345525000000000000000000000000002604072600000000000000000000345512500000000000000000000000002602714900000000000000000000345500000000000000000000000000002545239500000000000000000000345487500000000000000000000000002868642700000000000000000000345475000000000000000000000000002917896200000000000000000000345462500000000000000000000000002814458000000000000000000000345450000000000000000000000000002636537100000000000000000000345437500000000000000000000000002587743600000000000000000000345425000000000000000000000000002816487300000000000000000000345412500000000000000000000000002574403700000000000000000000345400000000000000000000000000002619548700000000000000000000345387500000000000000000000000002446381900000000000000000000345375000000000000000000000000002363155200000000000000000000345362500000000000000000000000002478548500000000000000000000345350000000000000000000000000002499412500000000000000000000345337500000000000000000000000002461672100000000000000000000345325000000000000000000000000002664523900000000000000000000345312500000000000000000000000002730330900000000000000000000345300000000000000000000000000002791185500000000000000000000345287500000000000000000000000002956637600000000000000000000345275000000000000000000000000002802172700000000000000000000345262500000000000000000000000002637645400000000000000000000345250000000000000000000000000002609266300000000000000000000345237500000000000000000000000002750104600000000000000000000345225000000000000000000000000002880833300000000000000000000345212500000000000000000000000002762057800000000000000000000345200000000000000000000000000002735206600000000000000000000345187500000000000000000000000002539478700000000000000000000345175000000000000000000000000002491248300000000000000000000345162500000000000000000000000002824373400000000000000000000345150000000000000000000000000002997681000000000000000000000345137500000000000000000000000003090994500000000000000000000345125000000000000000000000000002888296700000000000000000000345112500000000000000000000000002716542800000000000000000000345100000000000000000000000000002557484300000000000000000000345087500000000000000000000000002681002800000000000000000000345075000000000000000000000000002857420600000000000000000000345062500000000000000000000000002963209300000000000000000000345050000000000000000000000000002815223200000000000000000000345037500000000000000000000000002673316600000000000000000000345025000000000000000000000000002703361700000000000000000000345012500000000000000000000000002731234700000000000000000000345000000000000000000000,
    2667425700000000000000000000346587500000000000000000000000002838700000000000000000000000346575000000000000000000000000002754490700000000000000000000346562500000000000000000000000002833994100000000000000000000346550000000000000000000000000002827381600000000000000000000346537500000000000000000000000002763583700000000000000000000346525000000000000000000000000002647966600000000000000000000346512500000000000000000000000002886326000000000000000000000346500000000000000000000000000003138841600000000000000000000346487500000000000000000000000002888770900000000000000000000346475000000000000000000000000002762840100000000000000000000346462500000000000000000000000002811336600000000000000000000346450000000000000000000000000002856793900000000000000000000346437500000000000000000000000002666491700000000000000000000346425000000000000000000000000002548870400000000000000000000346412500000000000000000000000002716803200000000000000000000346400000000000000000000000000002841493200000000000000000000346387500000000000000000000000003099517000000000000000000000346375000000000000000000000000002951288600000000000000000000346362500000000000000000000000002916923200000000000000000000346350000000000000000000000000002735562200000000000000000000346337500000000000000000000000002726773500000000000000000000346325000000000000000000000000002866152900000000000000000000346312500000000000000000000000002662191200000000000000000000346300000000000000000000000000002525673300000000000000000000346287500000000000000000000000002418719100000000000000000000346275000000000000000000000000002476917100000000000000000000346262500000000000000000000000002695311100000000000000000000346250000000000000000000000000002775204300000000000000000000346237500000000000000000000000002755511300000000000000000000346225000000000000000000000000002669199500000000000000000000346212500000000000000000000000002765800500000000000000000000346200000000000000000000000000002722373100000000000000000000346187500000000000000000000000002639972600000000000000000000346175000000000000000000000000002535585000000000000000000000346162500000000000000000000000002601426100000000000000000000346150000000000000000000000000002549313100000000000000000000346137500000000000000000000000002637827900000000000000000000346125000000000000000000000000002561056300000000000000000000346112500000000000000000000000002438441500000000000000000000346100000000000000000000000000002495551800000000000000000000346087500000000000000000000000002610510100000000000000000000346075000000000000000000000000002868415800000000000000000000346062500000000000000000000000002891050400000000000000000000346050000000000000000000000000002527891900000000000000000000346037500000000000000000000000002634626900000000000000000000346025000000000000000000000000003033764700000000000000000000346012500000000000000000000000003004624500000000000000000000346000000000000000000000000000002782329600000000000000000000345987500000000000000000000000002516293200000000000000000000345975000000000000000000000000002528938000000000000000000000345962500000000000000000000000002754610500000000000000000000345950000000000000000000000000002882551400000000000000000000345937500000000000000000000000002960507700000000000000000000345925000000000000000000000000002564676300000000000000000000345912500000000000000000000000002392880600000000000000000000345900000000000000000000000000002667816900000000000000000000345887500000000000000000000000002687712800000000000000000000345875000000000000000000000000002479518900000000000000000000345862500000000000000000000000002698885700000000000000000000345850000000000000000000000000002779317900000000000000000000345837500000000000000000000000002676665200000000000000000000345825000000000000000000000000002777290700000000000000000000345812500000000000000000000000002699462500000000000000000000345800000000000000000000,
    2539232100000000000000000000347387500000000000000000000000002475667500000000000000000000347375000000000000000000000000002612552900000000000000000000347362500000000000000000000000002769644400000000000000000000347350000000000000000000000000002757671500000000000000000000347337500000000000000000000000002836001900000000000000000000347325000000000000000000000000002542768200000000000000000000347312500000000000000000000000002587913700000000000000000000347300000000000000000000000000002872379700000000000000000000347287500000000000000000000000002751977800000000000000000000347275000000000000000000000000002468909800000000000000000000347262500000000000000000000000002608638700000000000000000000347250000000000000000000000000002748018200000000000000000000347237500000000000000000000000002636468500000000000000000000347225000000000000000000000000002525653700000000000000000000347212500000000000000000000000002599027900000000000000000000347200000000000000000000000000002712329000000000000000000000347187500000000000000000000000002684888200000000000000000000347175000000000000000000000000002831275600000000000000000000347162500000000000000000000000002719499100000000000000000000347150000000000000000000000000002433615400000000000000000000347137500000000000000000000000002727055000000000000000000000347125000000000000000000000000002915518000000000000000000000347112500000000000000000000000002744045400000000000000000000347100000000000000000000000000002564151400000000000000000000347087500000000000000000000000002566067100000000000000000000347075000000000000000000000000002818508500000000000000000000347062500000000000000000000000003031540200000000000000000000347050000000000000000000000000002738647300000000000000000000347037500000000000000000000000002815811800000000000000000000347025000000000000000000000000002740495100000000000000000000347012500000000000000000000000002719594400000000000000000000347000000000000000000000000000002606080300000000000000000000346987500000000000000000000000002956136500000000000000000000346975000000000000000000000000003231907000000000000000000000346962500000000000000000000000003010886400000000000000000000346950000000000000000000000000002687259200000000000000000000346937500000000000000000000000002540106200000000000000000000346925000000000000000000000000002597117700000000000000000000346912500000000000000000000000002651998300000000000000000000346900000000000000000000000000002919102000000000000000000000346887500000000000000000000000002919463000000000000000000000346875000000000000000000000000002786151000000000000000000000346862500000000000000000000000002553192700000000000000000000346850000000000000000000000000002692859100000000000000000000346837500000000000000000000000002738764300000000000000000000346825000000000000000000000000002700223900000000000000000000346812500000000000000000000000002937268600000000000000000000346800000000000000000000000000002822193300000000000000000000346787500000000000000000000000002682415300000000000000000000346775000000000000000000000000002672614500000000000000000000346762500000000000000000000000002814784000000000000000000000346750000000000000000000000000002664161300000000000000000000346737500000000000000000000000002559293800000000000000000000346725000000000000000000000000002622059200000000000000000000346712500000000000000000000000002623305100000000000000000000346700000000000000000000000000002537185800000000000000000000346687500000000000000000000000002595821600000000000000000000346675000000000000000000000000002537467400000000000000000000346662500000000000000000000000002549069900000000000000000000346650000000000000000000000000002721993400000000000000000000346637500000000000000000000000002933564600000000000000000000346625000000000000000000000000002898569600000000000000000000346612500000000000000000000000002707637700000000000000000000346600000000000000000000,
    3000516600000000000000000000348187500000000000000000000000003003381600000000000000000000348175000000000000000000000000002795218100000000000000000000348162500000000000000000000000002772742000000000000000000000348150000000000000000000000000002719237800000000000000000000348137500000000000000000000000002867202200000000000000000000348125000000000000000000000000002986203700000000000000000000348112500000000000000000000000002825910900000000000000000000348100000000000000000000000000002712146600000000000000000000348087500000000000000000000000002708695000000000000000000000348075000000000000000000000000002791818600000000000000000000348062500000000000000000000000002651973700000000000000000000348050000000000000000000000000002725974900000000000000000000348037500000000000000000000000002667731400000000000000000000348025000000000000000000000000002637248600000000000000000000348012500000000000000000000000002778663600000000000000000000348000000000000000000000000000002808149000000000000000000000347987500000000000000000000000002552034500000000000000000000347975000000000000000000000000002543831800000000000000000000347962500000000000000000000000002680751200000000000000000000347950000000000000000000000000002830404500000000000000000000347937500000000000000000000000002739596300000000000000000000347925000000000000000000000000002916815900000000000000000000347912500000000000000000000000002746836700000000000000000000347900000000000000000000000000002755144800000000000000000000347887500000000000000000000000002827274400000000000000000000347875000000000000000000000000002722088900000000000000000000347862500000000000000000000000002766210500000000000000000000347850000000000000000000000000002864902700000000000000000000347837500000000000000000000000002895318300000000000000000000347825000000000000000000000000002955481100000000000000000000347812500000000000000000000000002806518800000000000000000000347800000000000000000000000000002635548200000000000000000000347787500000000000000000000000002611298500000000000000000000347775000000000000000000000000002668459300000000000000000000347762500000000000000000000000002630899400000000000000000000347750000000000000000000000000002852707400000000000000000000347737500000000000000000000000003077697200000000000000000000347725000000000000000000000000002913269700000000000000000000347712500000000000000000000000002765735300000000000000000000347700000000000000000000000000002973800300000000000000000000347687500000000000000000000000002939501000000000000000000000347675000000000000000000000000002783095400000000000000000000347662500000000000000000000000002790210800000000000000000000347650000000000000000000000000002906664800000000000000000000347637500000000000000000000000002823831100000000000000000000347625000000000000000000000000002971412100000000000000000000347612500000000000000000000000002789868100000000000000000000347600000000000000000000000000002740343100000000000000000000347587500000000000000000000000003030609300000000000000000000347575000000000000000000000000002800750200000000000000000000347562500000000000000000000000002582022700000000000000000000347550000000000000000000000000002603900400000000000000000000347537500000000000000000000000003034966800000000000000000000347525000000000000000000000000002881891500000000000000000000347512500000000000000000000000002946925300000000000000000000347500000000000000000000000000002860949200000000000000000000347487500000000000000000000000002930994300000000000000000000347475000000000000000000000000002935557700000000000000000000347462500000000000000000000000002881740600000000000000000000347450000000000000000000000000002813439500000000000000000000347437500000000000000000000000002700893700000000000000000000347425000000000000000000000000002668898300000000000000000000347412500000000000000000000000002655188300000000000000000000347400000000000000000000,
    2782511000000000000000000000348987500000000000000000000000002803414100000000000000000000348975000000000000000000000000002799534800000000000000000000348962500000000000000000000000002822603200000000000000000000348950000000000000000000000000002810889200000000000000000000348937500000000000000000000000002946095600000000000000000000348925000000000000000000000000002854896700000000000000000000348912500000000000000000000000002719897100000000000000000000348900000000000000000000000000002739330500000000000000000000348887500000000000000000000000002786226200000000000000000000348875000000000000000000000000002887303200000000000000000000348862500000000000000000000000002827955500000000000000000000348850000000000000000000000000003169493400000000000000000000348837500000000000000000000000003061033800000000000000000000348825000000000000000000000000002716002800000000000000000000348812500000000000000000000000002752147400000000000000000000348800000000000000000000000000002972714500000000000000000000348787500000000000000000000000003093399700000000000000000000348775000000000000000000000000002961654900000000000000000000348762500000000000000000000000002854497600000000000000000000348750000000000000000000000000002877489000000000000000000000348737500000000000000000000000002801647400000000000000000000348725000000000000000000000000002906070500000000000000000000348712500000000000000000000000002871332000000000000000000000348700000000000000000000000000002767884400000000000000000000348687500000000000000000000000003098601400000000000000000000348675000000000000000000000000002970616000000000000000000000348662500000000000000000000000002893534700000000000000000000348650000000000000000000000000002909596900000000000000000000348637500000000000000000000000003034793700000000000000000000348625000000000000000000000000003076738300000000000000000000348612500000000000000000000000002991848200000000000000000000348600000000000000000000000000002694318800000000000000000000348587500000000000000000000000002766691600000000000000000000348575000000000000000000000000002864919700000000000000000000348562500000000000000000000000003091191100000000000000000000348550000000000000000000000000003079927400000000000000000000348537500000000000000000000000003028684300000000000000000000348525000000000000000000000000002877097000000000000000000000348512500000000000000000000000002892926400000000000000000000348500000000000000000000000000002779797700000000000000000000348487500000000000000000000000002559392600000000000000000000348475000000000000000000000000002712367400000000000000000000348462500000000000000000000000002922410900000000000000000000348450000000000000000000000000003084025400000000000000000000348437500000000000000000000000002872110600000000000000000000348425000000000000000000000000002757706900000000000000000000348412500000000000000000000000002769171800000000000000000000348400000000000000000000000000002668486500000000000000000000348387500000000000000000000000002792164300000000000000000000348375000000000000000000000000002689384600000000000000000000348362500000000000000000000000002846454300000000000000000000348350000000000000000000000000002799116500000000000000000000348337500000000000000000000000002822612500000000000000000000348325000000000000000000000000002615796500000000000000000000348312500000000000000000000000002870260800000000000000000000348300000000000000000000000000002839705200000000000000000000348287500000000000000000000000002654191900000000000000000000348275000000000000000000000000002868570900000000000000000000348262500000000000000000000000002876160400000000000000000000348250000000000000000000000000002731280000000000000000000000348237500000000000000000000000002686802200000000000000000000348225000000000000000000000000002867785400000000000000000000348212500000000000000000000000002752010900000000000000000000348200000000000000000000,
    2851120600000000000000000000349787500000000000000000000000002946689100000000000000000000349775000000000000000000000000002797536100000000000000000000349762500000000000000000000000002767347300000000000000000000349750000000000000000000000000003017063100000000000000000000349737500000000000000000000000002803705100000000000000000000349725000000000000000000000000002819391100000000000000000000349712500000000000000000000000002725942600000000000000000000349700000000000000000000000000002971905400000000000000000000349687500000000000000000000000002730995900000000000000000000349675000000000000000000000000002416792000000000000000000000349662500000000000000000000000002792301400000000000000000000349650000000000000000000000000002926461200000000000000000000349637500000000000000000000000002668141000000000000000000000349625000000000000000000000000002787324500000000000000000000349612500000000000000000000000003053097300000000000000000000349600000000000000000000000000002970993000000000000000000000349587500000000000000000000000002750643700000000000000000000349575000000000000000000000000002825537100000000000000000000349562500000000000000000000000002691647800000000000000000000349550000000000000000000000000002641517800000000000000000000349537500000000000000000000000002755528000000000000000000000349525000000000000000000000000002967582100000000000000000000349512500000000000000000000000002897392100000000000000000000349500000000000000000000000000002857169700000000000000000000349487500000000000000000000000002955506800000000000000000000349475000000000000000000000000002945275600000000000000000000349462500000000000000000000000002835533600000000000000000000349450000000000000000000000000002887542300000000000000000000349437500000000000000000000000002840211000000000000000000000349425000000000000000000000000002937522300000000000000000000349412500000000000000000000000002735319200000000000000000000349400000000000000000000000000002738071700000000000000000000349387500000000000000000000000002730406000000000000000000000349375000000000000000000000000003026280800000000000000000000349362500000000000000000000000002905395800000000000000000000349350000000000000000000000000002812461800000000000000000000349337500000000000000000000000002897973300000000000000000000349325000000000000000000000000002962019000000000000000000000349312500000000000000000000000002774992900000000000000000000349300000000000000000000000000002595172700000000000000000000349287500000000000000000000000002499307300000000000000000000349275000000000000000000000000002646993700000000000000000000349262500000000000000000000000002623734800000000000000000000349250000000000000000000000000002864299600000000000000000000349237500000000000000000000000002817692300000000000000000000349225000000000000000000000000002853875800000000000000000000349212500000000000000000000000002894567600000000000000000000349200000000000000000000000000002826886500000000000000000000349187500000000000000000000000002857933800000000000000000000349175000000000000000000000000002830690500000000000000000000349162500000000000000000000000002828861400000000000000000000349150000000000000000000000000002660660500000000000000000000349137500000000000000000000000002772275100000000000000000000349125000000000000000000000000002894547600000000000000000000349112500000000000000000000000003008877300000000000000000000349100000000000000000000000000002830711100000000000000000000349087500000000000000000000000002779793200000000000000000000349075000000000000000000000000002869925900000000000000000000349062500000000000000000000000002888350200000000000000000000349050000000000000000000000000002978462600000000000000000000349037500000000000000000000000003040811600000000000000000000349025000000000000000000000000002827626500000000000000000000349012500000000000000000000000002665155700000000000000000000349000000000000000000000,
    2953854400000000000000000000350587500000000000000000000000002836883300000000000000000000350575000000000000000000000000002891260000000000000000000000350562500000000000000000000000002805003300000000000000000000350550000000000000000000000000002718479500000000000000000000350537500000000000000000000000002733537500000000000000000000350525000000000000000000000000002918017800000000000000000000350512500000000000000000000000002770571100000000000000000000350500000000000000000000000000002650061400000000000000000000350487500000000000000000000000002798642700000000000000000000350475000000000000000000000000002901079600000000000000000000350462500000000000000000000000002919636700000000000000000000350450000000000000000000000000002747392800000000000000000000350437500000000000000000000000002805207600000000000000000000350425000000000000000000000000002876908300000000000000000000350412500000000000000000000000002849530300000000000000000000350400000000000000000000000000002906308400000000000000000000350387500000000000000000000000002894598600000000000000000000350375000000000000000000000000002738474000000000000000000000350362500000000000000000000000002797702000000000000000000000350350000000000000000000000000002884810200000000000000000000350337500000000000000000000000002835213400000000000000000000350325000000000000000000000000002669862600000000000000000000350312500000000000000000000000002824013800000000000000000000350300000000000000000000000000002867164700000000000000000000350287500000000000000000000000002739410400000000000000000000350275000000000000000000000000002600929400000000000000000000350262500000000000000000000000002705478800000000000000000000350250000000000000000000000000002867742000000000000000000000350237500000000000000000000000002788698300000000000000000000350225000000000000000000000000002823896400000000000000000000350212500000000000000000000000003008072400000000000000000000350200000000000000000000000000002738440100000000000000000000350187500000000000000000000000002700846800000000000000000000350175000000000000000000000000002859097700000000000000000000350162500000000000000000000000002747291400000000000000000000350150000000000000000000000000002805541700000000000000000000350137500000000000000000000000002791609600000000000000000000350125000000000000000000000000002609790300000000000000000000350112500000000000000000000000002723957700000000000000000000350100000000000000000000000000003087196500000000000000000000350087500000000000000000000000003187700100000000000000000000350075000000000000000000000000002958223600000000000000000000350062500000000000000000000000002975438100000000000000000000350050000000000000000000000000003009448500000000000000000000350037500000000000000000000000003005059200000000000000000000350025000000000000000000000000002805759100000000000000000000350012500000000000000000000000002532407900000000000000000000350000000000000000000000000000002745754700000000000000000000349987500000000000000000000000002744347400000000000000000000349975000000000000000000000000002837263500000000000000000000349962500000000000000000000000002877089600000000000000000000349950000000000000000000000000002847140900000000000000000000349937500000000000000000000000002827326700000000000000000000349925000000000000000000000000002766801300000000000000000000349912500000000000000000000000003011933000000000000000000000349900000000000000000000000000002651464800000000000000000000349887500000000000000000000000002863360700000000000000000000349875000000000000000000000000003030176200000000000000000000349862500000000000000000000000002783330300000000000000000000349850000000000000000000000000002868066800000000000000000000349837500000000000000000000000002832429300000000000000000000349825000000000000000000000000002895234900000000000000000000349812500000000000000000000000002902581700000000000000000000349800000000000000000000,
    2560038900000000000000000000351387500000000000000000000000002560511100000000000000000000351375000000000000000000000000002790469900000000000000000000351362500000000000000000000000002653355400000000000000000000351350000000000000000000000000002761786600000000000000000000351337500000000000000000000000002684527400000000000000000000351325000000000000000000000000002947122700000000000000000000351312500000000000000000000000003042276100000000000000000000351300000000000000000000000000002654934500000000000000000000351287500000000000000000000000002645308900000000000000000000351275000000000000000000000000002797172700000000000000000000351262500000000000000000000000002904304300000000000000000000351250000000000000000000000000003021300900000000000000000000351237500000000000000000000000002979459900000000000000000000351225000000000000000000000000002749622600000000000000000000351212500000000000000000000000002803903500000000000000000000351200000000000000000000000000003164183000000000000000000000351187500000000000000000000000003028991400000000000000000000351175000000000000000000000000002924319900000000000000000000351162500000000000000000000000002950791200000000000000000000351150000000000000000000000000002914394900000000000000000000351137500000000000000000000000002883274300000000000000000000351125000000000000000000000000002828464100000000000000000000351112500000000000000000000000002851605700000000000000000000351100000000000000000000000000002738319100000000000000000000351087500000000000000000000000002760699100000000000000000000351075000000000000000000000000002697098000000000000000000000351062500000000000000000000000002526194800000000000000000000351050000000000000000000000000002619858300000000000000000000351037500000000000000000000000002681199800000000000000000000351025000000000000000000000000002819064500000000000000000000351012500000000000000000000000002768996300000000000000000000351000000000000000000000000000002759998400000000000000000000350987500000000000000000000000002782814400000000000000000000350975000000000000000000000000002661269200000000000000000000350962500000000000000000000000002802868700000000000000000000350950000000000000000000000000002851489500000000000000000000350937500000000000000000000000002901137800000000000000000000350925000000000000000000000000002835135700000000000000000000350912500000000000000000000000002843645000000000000000000000350900000000000000000000000000002726723200000000000000000000350887500000000000000000000000002885761200000000000000000000350875000000000000000000000000002950388900000000000000000000350862500000000000000000000000003064249900000000000000000000350850000000000000000000000000003053130500000000000000000000350837500000000000000000000000002814655200000000000000000000350825000000000000000000000000002784517400000000000000000000350812500000000000000000000000002810652500000000000000000000350800000000000000000000000000002718123600000000000000000000350787500000000000000000000000002592092900000000000000000000350775000000000000000000000000002807497700000000000000000000350762500000000000000000000000002855813100000000000000000000350750000000000000000000000000002849307200000000000000000000350737500000000000000000000000003102485000000000000000000000350725000000000000000000000000002941833900000000000000000000350712500000000000000000000000002870117000000000000000000000350700000000000000000000000000002693836900000000000000000000350687500000000000000000000000002812080500000000000000000000350675000000000000000000000000002608513800000000000000000000350662500000000000000000000000002663482300000000000000000000350650000000000000000000000000002709133700000000000000000000350637500000000000000000000000002912437200000000000000000000350625000000000000000000000000003035700000000000000000000000350612500000000000000000000000002843648400000000000000000000350600000000000000000000,
    2864618000000000000000000000352187500000000000000000000000002752229000000000000000000000352175000000000000000000000000002779423600000000000000000000352162500000000000000000000000003106579000000000000000000000352150000000000000000000000000002875713100000000000000000000352137500000000000000000000000002771187000000000000000000000352125000000000000000000000000002645427500000000000000000000352112500000000000000000000000002529034200000000000000000000352100000000000000000000000000002660918000000000000000000000352087500000000000000000000000002779296300000000000000000000352075000000000000000000000000002749681600000000000000000000352062500000000000000000000000002569980300000000000000000000352050000000000000000000000000002647945900000000000000000000352037500000000000000000000000002716028100000000000000000000352025000000000000000000000000002944850800000000000000000000352012500000000000000000000000003003793600000000000000000000352000000000000000000000000000002928082000000000000000000000351987500000000000000000000000002750223900000000000000000000351975000000000000000000000000002724890900000000000000000000351962500000000000000000000000002973289900000000000000000000351950000000000000000000000000003059427000000000000000000000351937500000000000000000000000002909574000000000000000000000351925000000000000000000000000002693218400000000000000000000351912500000000000000000000000002833660100000000000000000000351900000000000000000000000000002806685700000000000000000000351887500000000000000000000000002706877400000000000000000000351875000000000000000000000000002734494900000000000000000000351862500000000000000000000000002847852800000000000000000000351850000000000000000000000000003039413500000000000000000000351837500000000000000000000000002897838500000000000000000000351825000000000000000000000000002854165500000000000000000000351812500000000000000000000000002893379800000000000000000000351800000000000000000000000000002771921200000000000000000000351787500000000000000000000000002913825700000000000000000000351775000000000000000000000000002738095100000000000000000000351762500000000000000000000000002546723600000000000000000000351750000000000000000000000000002824990600000000000000000000351737500000000000000000000000003001582700000000000000000000351725000000000000000000000000003223557900000000000000000000351712500000000000000000000000002912688300000000000000000000351700000000000000000000000000002821327700000000000000000000351687500000000000000000000000002936697300000000000000000000351675000000000000000000000000002805499400000000000000000000351662500000000000000000000000002786112000000000000000000000351650000000000000000000000000002776886400000000000000000000351637500000000000000000000000002912809700000000000000000000351625000000000000000000000000002842834900000000000000000000351612500000000000000000000000002796640100000000000000000000351600000000000000000000000000002702763500000000000000000000351587500000000000000000000000002891950700000000000000000000351575000000000000000000000000002750482400000000000000000000351562500000000000000000000000002714742800000000000000000000351550000000000000000000000000002761498400000000000000000000351537500000000000000000000000002886314700000000000000000000351525000000000000000000000000002908267800000000000000000000351512500000000000000000000000002888286300000000000000000000351500000000000000000000000000002933472100000000000000000000351487500000000000000000000000002885900000000000000000000000351475000000000000000000000000002717774400000000000000000000351462500000000000000000000000002692123400000000000000000000351450000000000000000000000000002840779400000000000000000000351437500000000000000000000000002626836800000000000000000000351425000000000000000000000000002613993000000000000000000000351412500000000000000000000000002673593700000000000000000000351400000000000000000000,
    2628775000000000000000000000352987500000000000000000000000002793068700000000000000000000352975000000000000000000000000002847524800000000000000000000352962500000000000000000000000003003316000000000000000000000352950000000000000000000000000002885720500000000000000000000352937500000000000000000000000002977777100000000000000000000352925000000000000000000000000003009380300000000000000000000352912500000000000000000000000002730144900000000000000000000352900000000000000000000000000002595935700000000000000000000352887500000000000000000000000002626277800000000000000000000352875000000000000000000000000002748856300000000000000000000352862500000000000000000000000002927839500000000000000000000352850000000000000000000000000002832117500000000000000000000352837500000000000000000000000002884319600000000000000000000352825000000000000000000000000002970300000000000000000000000352812500000000000000000000000002710816300000000000000000000352800000000000000000000000000002579912800000000000000000000352787500000000000000000000000002904639500000000000000000000352775000000000000000000000000003141222900000000000000000000352762500000000000000000000000002892566500000000000000000000352750000000000000000000000000002634370200000000000000000000352737500000000000000000000000002665154100000000000000000000352725000000000000000000000000002704259800000000000000000000352712500000000000000000000000002756368700000000000000000000352700000000000000000000000000002980542200000000000000000000352687500000000000000000000000002712000300000000000000000000352675000000000000000000000000002881449700000000000000000000352662500000000000000000000000002798275300000000000000000000352650000000000000000000000000002924138300000000000000000000352637500000000000000000000000002848046800000000000000000000352625000000000000000000000000002990681700000000000000000000352612500000000000000000000000003171997100000000000000000000352600000000000000000000000000003148051600000000000000000000352587500000000000000000000000003000832300000000000000000000352575000000000000000000000000002766558100000000000000000000352562500000000000000000000000002491485000000000000000000000352550000000000000000000000000002725912400000000000000000000352537500000000000000000000000002998014100000000000000000000352525000000000000000000000000003022777100000000000000000000352512500000000000000000000000002859409200000000000000000000352500000000000000000000000000002804988900000000000000000000352487500000000000000000000000002793640400000000000000000000352475000000000000000000000000002774655000000000000000000000352462500000000000000000000000002848216700000000000000000000352450000000000000000000000000002837887400000000000000000000352437500000000000000000000000002933730000000000000000000000352425000000000000000000000000003014672300000000000000000000352412500000000000000000000000003014463900000000000000000000352400000000000000000000000000002857858200000000000000000000352387500000000000000000000000002668752200000000000000000000352375000000000000000000000000002789451900000000000000000000352362500000000000000000000000002888537900000000000000000000352350000000000000000000000000003016708200000000000000000000352337500000000000000000000000002858350200000000000000000000352325000000000000000000000000003017564300000000000000000000352312500000000000000000000000002747986800000000000000000000352300000000000000000000000000002756854800000000000000000000352287500000000000000000000000002798053700000000000000000000352275000000000000000000000000002873131200000000000000000000352262500000000000000000000000002799398000000000000000000000352250000000000000000000000000002835070400000000000000000000352237500000000000000000000000002761328400000000000000000000352225000000000000000000000000002819323500000000000000000000352212500000000000000000000000002914960200000000000000000000352200000000000000000000,
    3044449100000000000000000000353787500000000000000000000000002983245700000000000000000000353775000000000000000000000000002815169800000000000000000000353762500000000000000000000000002679505000000000000000000000353750000000000000000000000000002929284100000000000000000000353737500000000000000000000000002882619000000000000000000000353725000000000000000000000000002836676100000000000000000000353712500000000000000000000000002931686600000000000000000000353700000000000000000000000000002987618800000000000000000000353687500000000000000000000000002926167000000000000000000000353675000000000000000000000000002994940800000000000000000000353662500000000000000000000000003094306700000000000000000000353650000000000000000000000000002943105300000000000000000000353637500000000000000000000000002842314700000000000000000000353625000000000000000000000000002787633800000000000000000000353612500000000000000000000000002653772100000000000000000000353600000000000000000000000000002792079700000000000000000000353587500000000000000000000000002730878400000000000000000000353575000000000000000000000000002836959600000000000000000000353562500000000000000000000000002614426700000000000000000000353550000000000000000000000000002844552600000000000000000000353537500000000000000000000000002936935400000000000000000000353525000000000000000000000000002861850600000000000000000000353512500000000000000000000000002887694900000000000000000000353500000000000000000000000000002722824300000000000000000000353487500000000000000000000000002709215900000000000000000000353475000000000000000000000000002787925000000000000000000000353462500000000000000000000000002837374700000000000000000000353450000000000000000000000000002783319400000000000000000000353437500000000000000000000000002900189500000000000000000000353425000000000000000000000000002620912300000000000000000000353412500000000000000000000000002833225000000000000000000000353400000000000000000000000000003063719300000000000000000000353387500000000000000000000000003068577800000000000000000000353375000000000000000000000000003050204200000000000000000000353362500000000000000000000000002763754300000000000000000000353350000000000000000000000000002921750600000000000000000000353337500000000000000000000000002795737000000000000000000000353325000000000000000000000000002749425200000000000000000000353312500000000000000000000000002696493100000000000000000000353300000000000000000000000000002598096700000000000000000000353287500000000000000000000000002701249900000000000000000000353275000000000000000000000000002960461100000000000000000000353262500000000000000000000000002893766400000000000000000000353250000000000000000000000000002760278600000000000000000000353237500000000000000000000000002888928800000000000000000000353225000000000000000000000000002951164500000000000000000000353212500000000000000000000000002896778400000000000000000000353200000000000000000000000000002751459900000000000000000000353187500000000000000000000000002760364800000000000000000000353175000000000000000000000000002774580700000000000000000000353162500000000000000000000000002871208700000000000000000000353150000000000000000000000000002854520600000000000000000000353137500000000000000000000000003021515200000000000000000000353125000000000000000000000000002964441300000000000000000000353112500000000000000000000000002950059000000000000000000000353100000000000000000000000000002591077300000000000000000000353087500000000000000000000000002579848900000000000000000000353075000000000000000000000000002803855400000000000000000000353062500000000000000000000000002875657100000000000000000000353050000000000000000000000000002822084000000000000000000000353037500000000000000000000000002863354900000000000000000000353025000000000000000000000000002870708400000000000000000000353012500000000000000000000000002797111900000000000000000000353000000000000000000000,
    2805674800000000000000000000354587500000000000000000000000002759976000000000000000000000354575000000000000000000000000002860256000000000000000000000354562500000000000000000000000002852757800000000000000000000354550000000000000000000000000002763233900000000000000000000354537500000000000000000000000002661882800000000000000000000354525000000000000000000000000002681947600000000000000000000354512500000000000000000000000002761847700000000000000000000354500000000000000000000000000002783398200000000000000000000354487500000000000000000000000002697904500000000000000000000354475000000000000000000000000002829248100000000000000000000354462500000000000000000000000002923581400000000000000000000354450000000000000000000000000002709260900000000000000000000354437500000000000000000000000002747582700000000000000000000354425000000000000000000000000002785079900000000000000000000354412500000000000000000000000002945334200000000000000000000354400000000000000000000000000002801627700000000000000000000354387500000000000000000000000002766253500000000000000000000354375000000000000000000000000002920238800000000000000000000354362500000000000000000000000002957152900000000000000000000354350000000000000000000000000002838260500000000000000000000354337500000000000000000000000002545967400000000000000000000354325000000000000000000000000002713967600000000000000000000354312500000000000000000000000002664113600000000000000000000354300000000000000000000000000002674997500000000000000000000354287500000000000000000000000002630502400000000000000000000354275000000000000000000000000002778921300000000000000000000354262500000000000000000000000002862537700000000000000000000354250000000000000000000000000002867793900000000000000000000354237500000000000000000000000002660373700000000000000000000354225000000000000000000000000002868641400000000000000000000354212500000000000000000000000002632024300000000000000000000354200000000000000000000000000002620522000000000000000000000354187500000000000000000000000002741451600000000000000000000354175000000000000000000000000002719191900000000000000000000354162500000000000000000000000002537308700000000000000000000354150000000000000000000000000002654170800000000000000000000354137500000000000000000000000002988878800000000000000000000354125000000000000000000000000002719841100000000000000000000354112500000000000000000000000002678669700000000000000000000354100000000000000000000000000002649236500000000000000000000354087500000000000000000000000002807049100000000000000000000354075000000000000000000000000002755839600000000000000000000354062500000000000000000000000002854331400000000000000000000354050000000000000000000000000002806975400000000000000000000354037500000000000000000000000002860552800000000000000000000354025000000000000000000000000002717834800000000000000000000354012500000000000000000000000002611031100000000000000000000354000000000000000000000000000002878518000000000000000000000353987500000000000000000000000002837880100000000000000000000353975000000000000000000000000002710833200000000000000000000353962500000000000000000000000002686661000000000000000000000353950000000000000000000000000002821232700000000000000000000353937500000000000000000000000002813307400000000000000000000353925000000000000000000000000003126321600000000000000000000353912500000000000000000000000003098801700000000000000000000353900000000000000000000000000002925872800000000000000000000353887500000000000000000000000002835550500000000000000000000353875000000000000000000000000002757281000000000000000000000353862500000000000000000000000002594940800000000000000000000353850000000000000000000000000002766024300000000000000000000353837500000000000000000000000002906316700000000000000000000353825000000000000000000000000002588436100000000000000000000353812500000000000000000000000002862650200000000000000000000353800000000000000000000,
    2788609900000000000000000000355387500000000000000000000000002786685100000000000000000000355375000000000000000000000000002825096700000000000000000000355362500000000000000000000000002831411800000000000000000000355350000000000000000000000000002854600800000000000000000000355337500000000000000000000000002956313300000000000000000000355325000000000000000000000000002970202100000000000000000000355312500000000000000000000000002701421700000000000000000000355300000000000000000000000000003019861000000000000000000000355287500000000000000000000000002921534100000000000000000000355275000000000000000000000000002705708600000000000000000000355262500000000000000000000000002596729000000000000000000000355250000000000000000000000000002650578900000000000000000000355237500000000000000000000000003037245600000000000000000000355225000000000000000000000000002942511400000000000000000000355212500000000000000000000000002877401900000000000000000000355200000000000000000000000000003029901000000000000000000000355187500000000000000000000000002891465500000000000000000000355175000000000000000000000000002690942700000000000000000000355162500000000000000000000000002788043200000000000000000000355150000000000000000000000000002978895200000000000000000000355137500000000000000000000000002879131800000000000000000000355125000000000000000000000000002753017300000000000000000000355112500000000000000000000000002769814100000000000000000000355100000000000000000000000000002816892100000000000000000000355087500000000000000000000000002745706100000000000000000000355075000000000000000000000000002725222100000000000000000000355062500000000000000000000000002694976400000000000000000000355050000000000000000000000000002767293200000000000000000000355037500000000000000000000000002911773900000000000000000000355025000000000000000000000000002981369100000000000000000000355012500000000000000000000000002999716600000000000000000000355000000000000000000000000000002697333300000000000000000000354987500000000000000000000000002680527600000000000000000000354975000000000000000000000000002684755100000000000000000000354962500000000000000000000000002735107700000000000000000000354950000000000000000000000000002873458500000000000000000000354937500000000000000000000000003027384100000000000000000000354925000000000000000000000000002696268800000000000000000000354912500000000000000000000000002799976100000000000000000000354900000000000000000000000000002693728200000000000000000000354887500000000000000000000000002830436000000000000000000000354875000000000000000000000000002923950900000000000000000000354862500000000000000000000000003028395700000000000000000000354850000000000000000000000000002627596500000000000000000000354837500000000000000000000000002939593300000000000000000000354825000000000000000000000000002988943800000000000000000000354812500000000000000000000000002846900500000000000000000000354800000000000000000000000000002884509600000000000000000000354787500000000000000000000000003055488500000000000000000000354775000000000000000000000000002898014600000000000000000000354762500000000000000000000000002859378300000000000000000000354750000000000000000000000000002959302300000000000000000000354737500000000000000000000000002634779800000000000000000000354725000000000000000000000000002637287500000000000000000000354712500000000000000000000000002719858800000000000000000000354700000000000000000000000000002809097300000000000000000000354687500000000000000000000000002594169200000000000000000000354675000000000000000000000000002810517300000000000000000000354662500000000000000000000000002904196900000000000000000000354650000000000000000000000000002800597800000000000000000000354637500000000000000000000000002882738400000000000000000000354625000000000000000000000000002823140400000000000000000000354612500000000000000000000000002717906800000000000000000000354600000000000000000000,
    2721060700000000000000000000356187500000000000000000000000002918990000000000000000000000356175000000000000000000000000003078664200000000000000000000356162500000000000000000000000003159941700000000000000000000356150000000000000000000000000002973789400000000000000000000356137500000000000000000000000002884054900000000000000000000356125000000000000000000000000002687697800000000000000000000356112500000000000000000000000002747166800000000000000000000356100000000000000000000000000002796798000000000000000000000356087500000000000000000000000002570541000000000000000000000356075000000000000000000000000002641483800000000000000000000356062500000000000000000000000002907223400000000000000000000356050000000000000000000000000002968786300000000000000000000356037500000000000000000000000002679385000000000000000000000356025000000000000000000000000002980855400000000000000000000356012500000000000000000000000003021871300000000000000000000356000000000000000000000000000002694399000000000000000000000355987500000000000000000000000002755416000000000000000000000355975000000000000000000000000002817721200000000000000000000355962500000000000000000000000002887057400000000000000000000355950000000000000000000000000002779537300000000000000000000355937500000000000000000000000002640373400000000000000000000355925000000000000000000000000002745306000000000000000000000355912500000000000000000000000002785725800000000000000000000355900000000000000000000000000002892339800000000000000000000355887500000000000000000000000002677402900000000000000000000355875000000000000000000000000002723410900000000000000000000355862500000000000000000000000002740417500000000000000000000355850000000000000000000000000002806955500000000000000000000355837500000000000000000000000002667411400000000000000000000355825000000000000000000000000002571054500000000000000000000355812500000000000000000000000002714710400000000000000000000355800000000000000000000000000002878710600000000000000000000355787500000000000000000000000002721200000000000000000000000355775000000000000000000000000002768202600000000000000000000355762500000000000000000000000002766937000000000000000000000355750000000000000000000000000002588708900000000000000000000355737500000000000000000000000002788867300000000000000000000355725000000000000000000000000002863603300000000000000000000355712500000000000000000000000002724960500000000000000000000355700000000000000000000000000002885094300000000000000000000355687500000000000000000000000002804104700000000000000000000355675000000000000000000000000002808036800000000000000000000355662500000000000000000000000002874554200000000000000000000355650000000000000000000000000002893309600000000000000000000355637500000000000000000000000002932920400000000000000000000355625000000000000000000000000002936450000000000000000000000355612500000000000000000000000003014214000000000000000000000355600000000000000000000000000002871812500000000000000000000355587500000000000000000000000002841575300000000000000000000355575000000000000000000000000002937028000000000000000000000355562500000000000000000000000002953626700000000000000000000355550000000000000000000000000002749261600000000000000000000355537500000000000000000000000002492619500000000000000000000355525000000000000000000000000002586322600000000000000000000355512500000000000000000000000002827202300000000000000000000355500000000000000000000000000002832338700000000000000000000355487500000000000000000000000002827594900000000000000000000355475000000000000000000000000002803760400000000000000000000355462500000000000000000000000002879290600000000000000000000355450000000000000000000000000002954687200000000000000000000355437500000000000000000000000002870003900000000000000000000355425000000000000000000000000002781866400000000000000000000355412500000000000000000000000002813565300000000000000000000355400000000000000000000,
    2665081400000000000000000000356987500000000000000000000000002741093500000000000000000000356975000000000000000000000000002753214000000000000000000000356962500000000000000000000000002745519500000000000000000000356950000000000000000000000000002790760200000000000000000000356937500000000000000000000000003001513000000000000000000000356925000000000000000000000000002924478000000000000000000000356912500000000000000000000000002835642100000000000000000000356900000000000000000000000000002735505200000000000000000000356887500000000000000000000000002840643400000000000000000000356875000000000000000000000000002960965200000000000000000000356862500000000000000000000000002755204500000000000000000000356850000000000000000000000000002797905300000000000000000000356837500000000000000000000000002773205600000000000000000000356825000000000000000000000000002614806000000000000000000000356812500000000000000000000000002557372700000000000000000000356800000000000000000000000000002750107700000000000000000000356787500000000000000000000000002763336600000000000000000000356775000000000000000000000000002767576600000000000000000000356762500000000000000000000000002777455900000000000000000000356750000000000000000000000000002752223800000000000000000000356737500000000000000000000000002730112500000000000000000000356725000000000000000000000000002931360500000000000000000000356712500000000000000000000000002848831600000000000000000000356700000000000000000000000000002889282800000000000000000000356687500000000000000000000000002850019400000000000000000000356675000000000000000000000000002726070200000000000000000000356662500000000000000000000000002924033900000000000000000000356650000000000000000000000000002960565700000000000000000000356637500000000000000000000000002830210500000000000000000000356625000000000000000000000000002990727400000000000000000000356612500000000000000000000000002816346200000000000000000000356600000000000000000000000000002924068200000000000000000000356587500000000000000000000000002996872600000000000000000000356575000000000000000000000000002604656700000000000000000000356562500000000000000000000000002802466500000000000000000000356550000000000000000000000000002696242400000000000000000000356537500000000000000000000000002581465400000000000000000000356525000000000000000000000000002675108000000000000000000000356512500000000000000000000000002481371300000000000000000000356500000000000000000000000000002538551100000000000000000000356487500000000000000000000000002878521500000000000000000000356475000000000000000000000000002826716300000000000000000000356462500000000000000000000000002879526200000000000000000000356450000000000000000000000000002920993100000000000000000000356437500000000000000000000000002755354100000000000000000000356425000000000000000000000000002729707700000000000000000000356412500000000000000000000000002847178900000000000000000000356400000000000000000000000000002673988700000000000000000000356387500000000000000000000000002520699000000000000000000000356375000000000000000000000000002719022400000000000000000000356362500000000000000000000000002908541800000000000000000000356350000000000000000000000000002686937800000000000000000000356337500000000000000000000000002594701400000000000000000000356325000000000000000000000000002673210700000000000000000000356312500000000000000000000000002826022000000000000000000000356300000000000000000000000000002752660400000000000000000000356287500000000000000000000000002847677000000000000000000000356275000000000000000000000000002909538900000000000000000000356262500000000000000000000000002952991500000000000000000000356250000000000000000000000000002998909900000000000000000000356237500000000000000000000000002926723300000000000000000000356225000000000000000000000000002790656100000000000000000000356212500000000000000000000000002746305200000000000000000000356200000000000000000000,
    2878819400000000000000000000357787500000000000000000000000002741379900000000000000000000357775000000000000000000000000002630882700000000000000000000357762500000000000000000000000002607926900000000000000000000357750000000000000000000000000002654174100000000000000000000357737500000000000000000000000002673749400000000000000000000357725000000000000000000000000002593076500000000000000000000357712500000000000000000000000002669545100000000000000000000357700000000000000000000000000002721312400000000000000000000357687500000000000000000000000002813779400000000000000000000357675000000000000000000000000002891908600000000000000000000357662500000000000000000000000002716905500000000000000000000357650000000000000000000000000002602734900000000000000000000357637500000000000000000000000002723508200000000000000000000357625000000000000000000000000002782489800000000000000000000357612500000000000000000000000002586508400000000000000000000357600000000000000000000000000002710458100000000000000000000357587500000000000000000000000002783171000000000000000000000357575000000000000000000000000002827995400000000000000000000357562500000000000000000000000002671979200000000000000000000357550000000000000000000000000002700954000000000000000000000357537500000000000000000000000002909150100000000000000000000357525000000000000000000000000002772337300000000000000000000357512500000000000000000000000002905662100000000000000000000357500000000000000000000000000002916195900000000000000000000357487500000000000000000000000002682323600000000000000000000357475000000000000000000000000002853492000000000000000000000357462500000000000000000000000002786756300000000000000000000357450000000000000000000000000002748679800000000000000000000357437500000000000000000000000002702493000000000000000000000357425000000000000000000000000002779873700000000000000000000357412500000000000000000000000002802705200000000000000000000357400000000000000000000000000002607484700000000000000000000357387500000000000000000000000002600053900000000000000000000357375000000000000000000000000002832964500000000000000000000357362500000000000000000000000002869335000000000000000000000357350000000000000000000000000002830743700000000000000000000357337500000000000000000000000002931861100000000000000000000357325000000000000000000000000002841692000000000000000000000357312500000000000000000000000002668780900000000000000000000357300000000000000000000000000002517374400000000000000000000357287500000000000000000000000002770972900000000000000000000357275000000000000000000000000002641514300000000000000000000357262500000000000000000000000002798566300000000000000000000357250000000000000000000000000002782783500000000000000000000357237500000000000000000000000002683254800000000000000000000357225000000000000000000000000002865834200000000000000000000357212500000000000000000000000002859420600000000000000000000357200000000000000000000000000002768625300000000000000000000357187500000000000000000000000002870411800000000000000000000357175000000000000000000000000002770755400000000000000000000357162500000000000000000000000002893483800000000000000000000357150000000000000000000000000002966154600000000000000000000357137500000000000000000000000002896953500000000000000000000357125000000000000000000000000002757629800000000000000000000357112500000000000000000000000002634672200000000000000000000357100000000000000000000000000002677073600000000000000000000357087500000000000000000000000002685009400000000000000000000357075000000000000000000000000002895546800000000000000000000357062500000000000000000000000002647352900000000000000000000357050000000000000000000000000002623933500000000000000000000357037500000000000000000000000003015644500000000000000000000357025000000000000000000000000003198141200000000000000000000357012500000000000000000000000002753062600000000000000000000357000000000000000000000,
    2950715500000000000000000000358587500000000000000000000000002978936100000000000000000000358575000000000000000000000000002882419600000000000000000000358562500000000000000000000000002915072600000000000000000000358550000000000000000000000000002960085600000000000000000000358537500000000000000000000000002853074000000000000000000000358525000000000000000000000000002673609200000000000000000000358512500000000000000000000000002712788300000000000000000000358500000000000000000000000000002781526300000000000000000000358487500000000000000000000000002743008000000000000000000000358475000000000000000000000000002677605000000000000000000000358462500000000000000000000000002789337300000000000000000000358450000000000000000000000000002885979600000000000000000000358437500000000000000000000000002898096800000000000000000000358425000000000000000000000000002691611100000000000000000000358412500000000000000000000000002433673400000000000000000000358400000000000000000000000000002493191800000000000000000000358387500000000000000000000000002861114100000000000000000000358375000000000000000000000000003105504600000000000000000000358362500000000000000000000000003015309100000000000000000000358350000000000000000000000000002723060300000000000000000000358337500000000000000000000000002720752900000000000000000000358325000000000000000000000000002655542100000000000000000000358312500000000000000000000000002960298500000000000000000000358300000000000000000000000000003074531000000000000000000000358287500000000000000000000000002870775000000000000000000000358275000000000000000000000000002902116900000000000000000000358262500000000000000000000000002845490800000000000000000000358250000000000000000000000000002648227000000000000000000000358237500000000000000000000000002823689400000000000000000000358225000000000000000000000000002945551100000000000000000000358212500000000000000000000000002662623400000000000000000000358200000000000000000000000000002576678300000000000000000000358187500000000000000000000000002732292100000000000000000000358175000000000000000000000000002777141200000000000000000000358162500000000000000000000000002836213000000000000000000000358150000000000000000000000000002863406800000000000000000000358137500000000000000000000000002786712400000000000000000000358125000000000000000000000000002893752400000000000000000000358112500000000000000000000000002974386600000000000000000000358100000000000000000000000000002883976400000000000000000000358087500000000000000000000000003038901500000000000000000000358075000000000000000000000000002937709700000000000000000000358062500000000000000000000000002823879400000000000000000000358050000000000000000000000000002892521100000000000000000000358037500000000000000000000000002839894900000000000000000000358025000000000000000000000000003039943400000000000000000000358012500000000000000000000000003055749300000000000000000000358000000000000000000000000000002888824400000000000000000000357987500000000000000000000000002823868100000000000000000000357975000000000000000000000000002783112100000000000000000000357962500000000000000000000000002917054600000000000000000000357950000000000000000000000000002915302500000000000000000000357937500000000000000000000000002918298500000000000000000000357925000000000000000000000000002759249700000000000000000000357912500000000000000000000000002916700900000000000000000000357900000000000000000000000000002977401400000000000000000000357887500000000000000000000000003196250200000000000000000000357875000000000000000000000000003023730400000000000000000000357862500000000000000000000000002939040900000000000000000000357850000000000000000000000000002979369800000000000000000000357837500000000000000000000000003039926600000000000000000000357825000000000000000000000000002779926000000000000000000000357812500000000000000000000000002923255900000000000000000000357800000000000000000000,
    2712809500000000000000000000359387500000000000000000000000002759055600000000000000000000359375000000000000000000000000002874143400000000000000000000359362500000000000000000000000002884476700000000000000000000359350000000000000000000000000002974873100000000000000000000359337500000000000000000000000002840013700000000000000000000359325000000000000000000000000002803376200000000000000000000359312500000000000000000000000002896500000000000000000000000359300000000000000000000000000003043243200000000000000000000359287500000000000000000000000002844365400000000000000000000359275000000000000000000000000002798182900000000000000000000359262500000000000000000000000002817703200000000000000000000359250000000000000000000000000002792997400000000000000000000359237500000000000000000000000002763435600000000000000000000359225000000000000000000000000002823241200000000000000000000359212500000000000000000000000002890717100000000000000000000359200000000000000000000000000002735103300000000000000000000359187500000000000000000000000002602942000000000000000000000359175000000000000000000000000002704673800000000000000000000359162500000000000000000000000002861061300000000000000000000359150000000000000000000000000002922652700000000000000000000359137500000000000000000000000002911025000000000000000000000359125000000000000000000000000002944029400000000000000000000359112500000000000000000000000002944276200000000000000000000359100000000000000000000000000003000109200000000000000000000359087500000000000000000000000002936032300000000000000000000359075000000000000000000000000003031381700000000000000000000359062500000000000000000000000002860590700000000000000000000359050000000000000000000000000002636201600000000000000000000359037500000000000000000000000002850012600000000000000000000359025000000000000000000000000003021005900000000000000000000359012500000000000000000000000002962070900000000000000000000359000000000000000000000000000002815861100000000000000000000358987500000000000000000000000002868829000000000000000000000358975000000000000000000000000003056639100000000000000000000358962500000000000000000000000002801503900000000000000000000358950000000000000000000000000002762134300000000000000000000358937500000000000000000000000002717368800000000000000000000358925000000000000000000000000002852791700000000000000000000358912500000000000000000000000002954690700000000000000000000358900000000000000000000000000002963143500000000000000000000358887500000000000000000000000003099766800000000000000000000358875000000000000000000000000002909883200000000000000000000358862500000000000000000000000002785676700000000000000000000358850000000000000000000000000002937788000000000000000000000358837500000000000000000000000002854636500000000000000000000358825000000000000000000000000002706667800000000000000000000358812500000000000000000000000002562042800000000000000000000358800000000000000000000000000002446864900000000000000000000358787500000000000000000000000002644057500000000000000000000358775000000000000000000000000002776076500000000000000000000358762500000000000000000000000002957440200000000000000000000358750000000000000000000000000003013328800000000000000000000358737500000000000000000000000002966731700000000000000000000358725000000000000000000000000002710624600000000000000000000358712500000000000000000000000002728897500000000000000000000358700000000000000000000000000002871820000000000000000000000358687500000000000000000000000002856325700000000000000000000358675000000000000000000000000002768645800000000000000000000358662500000000000000000000000002898143500000000000000000000358650000000000000000000000000002923003500000000000000000000358637500000000000000000000000002721797200000000000000000000358625000000000000000000000000002686881100000000000000000000358612500000000000000000000000002871381000000000000000000000358600000000000000000000,
    2814598000000000000000000000360187500000000000000000000000002681674700000000000000000000360175000000000000000000000000002883921900000000000000000000360162500000000000000000000000002768338700000000000000000000360150000000000000000000000000002819707200000000000000000000360137500000000000000000000000002902025000000000000000000000360125000000000000000000000000002714157300000000000000000000360112500000000000000000000000002820035900000000000000000000360100000000000000000000000000002816516300000000000000000000360087500000000000000000000000002789361900000000000000000000360075000000000000000000000000002742286500000000000000000000360062500000000000000000000000002669201500000000000000000000360050000000000000000000000000002730897500000000000000000000360037500000000000000000000000002837239200000000000000000000360025000000000000000000000000002759127700000000000000000000360012500000000000000000000000002930513000000000000000000000360000000000000000000000000000002773410700000000000000000000359987500000000000000000000000002836433800000000000000000000359975000000000000000000000000002659358700000000000000000000359962500000000000000000000000002618920300000000000000000000359950000000000000000000000000003089904000000000000000000000359937500000000000000000000000003278841800000000000000000000359925000000000000000000000000002641558700000000000000000000359912500000000000000000000000002719124300000000000000000000359900000000000000000000000000002923335200000000000000000000359887500000000000000000000000003016342900000000000000000000359875000000000000000000000000002890865500000000000000000000359862500000000000000000000000002884098200000000000000000000359850000000000000000000000000002784339900000000000000000000359837500000000000000000000000002820584400000000000000000000359825000000000000000000000000002972973700000000000000000000359812500000000000000000000000002785100100000000000000000000359800000000000000000000000000002859724800000000000000000000359787500000000000000000000000002949686600000000000000000000359775000000000000000000000000002953672400000000000000000000359762500000000000000000000000002683947300000000000000000000359750000000000000000000000000002630429700000000000000000000359737500000000000000000000000002846801400000000000000000000359725000000000000000000000000003009073000000000000000000000359712500000000000000000000000002896104200000000000000000000359700000000000000000000000000002960745100000000000000000000359687500000000000000000000000002748396100000000000000000000359675000000000000000000000000002689378900000000000000000000359662500000000000000000000000002891329700000000000000000000359650000000000000000000000000002943154400000000000000000000359637500000000000000000000000002786182700000000000000000000359625000000000000000000000000003148743800000000000000000000359612500000000000000000000000003001484400000000000000000000359600000000000000000000000000002589675300000000000000000000359587500000000000000000000000002719411900000000000000000000359575000000000000000000000000002874622400000000000000000000359562500000000000000000000000002730496600000000000000000000359550000000000000000000000000002758438100000000000000000000359537500000000000000000000000002667696200000000000000000000359525000000000000000000000000002642376700000000000000000000359512500000000000000000000000002766352300000000000000000000359500000000000000000000000000002860375900000000000000000000359487500000000000000000000000002705994700000000000000000000359475000000000000000000000000002818843500000000000000000000359462500000000000000000000000002952931600000000000000000000359450000000000000000000000000002908575600000000000000000000359437500000000000000000000000002855227600000000000000000000359425000000000000000000000000002708612300000000000000000000359412500000000000000000000000002623740500000000000000000000359400000000000000000000,
    3001933000000000000000000000360987500000000000000000000000003025913400000000000000000000360975000000000000000000000000003031664700000000000000000000360962500000000000000000000000002980049300000000000000000000360950000000000000000000000000003030158800000000000000000000360937500000000000000000000000002956634700000000000000000000360925000000000000000000000000002878610700000000000000000000360912500000000000000000000000002733054000000000000000000000360900000000000000000000000000002848942800000000000000000000360887500000000000000000000000002587370000000000000000000000360875000000000000000000000000002703303700000000000000000000360862500000000000000000000000002771586300000000000000000000360850000000000000000000000000002917909500000000000000000000360837500000000000000000000000002870705300000000000000000000360825000000000000000000000000002730083300000000000000000000360812500000000000000000000000002948607800000000000000000000360800000000000000000000000000003146199900000000000000000000360787500000000000000000000000002983408900000000000000000000360775000000000000000000000000002980654100000000000000000000360762500000000000000000000000003159478600000000000000000000360750000000000000000000000000002979023600000000000000000000360737500000000000000000000000002858946900000000000000000000360725000000000000000000000000002815793800000000000000000000360712500000000000000000000000002689672000000000000000000000360700000000000000000000000000002785252600000000000000000000360687500000000000000000000000002955412600000000000000000000360675000000000000000000000000002711721700000000000000000000360662500000000000000000000000002706668100000000000000000000360650000000000000000000000000002902542200000000000000000000360637500000000000000000000000002728851600000000000000000000360625000000000000000000000000002966432900000000000000000000360612500000000000000000000000002761892800000000000000000000360600000000000000000000000000002755997400000000000000000000360587500000000000000000000000002666560100000000000000000000360575000000000000000000000000002846574400000000000000000000360562500000000000000000000000003168844300000000000000000000360550000000000000000000000000003093015900000000000000000000360537500000000000000000000000002936511700000000000000000000360525000000000000000000000000003143345100000000000000000000360512500000000000000000000000003086293000000000000000000000360500000000000000000000000000002813888200000000000000000000360487500000000000000000000000002713358000000000000000000000360475000000000000000000000000002761646600000000000000000000360462500000000000000000000000002708183500000000000000000000360450000000000000000000000000002926378000000000000000000000360437500000000000000000000000002875962500000000000000000000360425000000000000000000000000002840705500000000000000000000360412500000000000000000000000002861896400000000000000000000360400000000000000000000000000002870568700000000000000000000360387500000000000000000000000002908205900000000000000000000360375000000000000000000000000002891643700000000000000000000360362500000000000000000000000002817268200000000000000000000360350000000000000000000000000002664504600000000000000000000360337500000000000000000000000002652708600000000000000000000360325000000000000000000000000002752527500000000000000000000360312500000000000000000000000002702914800000000000000000000360300000000000000000000000000002910815700000000000000000000360287500000000000000000000000002961648100000000000000000000360275000000000000000000000000002949810800000000000000000000360262500000000000000000000000003065443200000000000000000000360250000000000000000000000000002856032300000000000000000000360237500000000000000000000000002736310700000000000000000000360225000000000000000000000000002830445600000000000000000000360212500000000000000000000000003021208900000000000000000000360200000000000000000000,
    2974495900000000000000000000361787500000000000000000000000002909921100000000000000000000361775000000000000000000000000002901282100000000000000000000361762500000000000000000000000002804200700000000000000000000361750000000000000000000000000002919378800000000000000000000361737500000000000000000000000002767483700000000000000000000361725000000000000000000000000002731633700000000000000000000361712500000000000000000000000002980756000000000000000000000361700000000000000000000000000002767165600000000000000000000361687500000000000000000000000002933084500000000000000000000361675000000000000000000000000003200433200000000000000000000361662500000000000000000000000003184858700000000000000000000361650000000000000000000000000003602469200000000000000000000361637500000000000000000000000004189380400000000000000000000361625000000000000000000000000005150593000000000000000000000361612500000000000000000000000005717907400000000000000000000361600000000000000000000000000005835277800000000000000000000361587500000000000000000000000006177229900000000000000000000361575000000000000000000000000007452576600000000000000000000361562500000000000000000000000016954078000000000000000000000361550000000000000000000000000119273620000000000000000000000361537500000000000000000000000534689390000000000000000000000361525000000000000000000000000503793770000000000000000000000361512500000000000000000000000090661930000000000000000000000361500000000000000000000000000015404801000000000000000000000361487500000000000000000000000007081488100000000000000000000361475000000000000000000000000005663812200000000000000000000361462500000000000000000000000005896419700000000000000000000361450000000000000000000000000005619314900000000000000000000361437500000000000000000000000004740175200000000000000000000361425000000000000000000000000003806394600000000000000000000361412500000000000000000000000003418230200000000000000000000361400000000000000000000000000003272640700000000000000000000361387500000000000000000000000003009786900000000000000000000361375000000000000000000000000003244128300000000000000000000361362500000000000000000000000003099646200000000000000000000361350000000000000000000000000003077633100000000000000000000361337500000000000000000000000003113141500000000000000000000361325000000000000000000000000003119317900000000000000000000361312500000000000000000000000003083962200000000000000000000361300000000000000000000000000003242451200000000000000000000361287500000000000000000000000003194054700000000000000000000361275000000000000000000000000002941203700000000000000000000361262500000000000000000000000002879075100000000000000000000361250000000000000000000000000002949187000000000000000000000361237500000000000000000000000003021398500000000000000000000361225000000000000000000000000002820602600000000000000000000361212500000000000000000000000003029357200000000000000000000361200000000000000000000000000002907802400000000000000000000361187500000000000000000000000002630693400000000000000000000361175000000000000000000000000002868820900000000000000000000361162500000000000000000000000002926695400000000000000000000361150000000000000000000000000002965849600000000000000000000361137500000000000000000000000003028447500000000000000000000361125000000000000000000000000003054648200000000000000000000361112500000000000000000000000002845208400000000000000000000361100000000000000000000000000002670856200000000000000000000361087500000000000000000000000002708303800000000000000000000361075000000000000000000000000002735019600000000000000000000361062500000000000000000000000002876727000000000000000000000361050000000000000000000000000002748461700000000000000000000361037500000000000000000000000002700131300000000000000000000361025000000000000000000000000002759210900000000000000000000361012500000000000000000000000002941645300000000000000000000361000000000000000000000,
    2887123100000000000000000000362587500000000000000000000000002756282600000000000000000000362575000000000000000000000000002756166400000000000000000000362562500000000000000000000000002893366100000000000000000000362550000000000000000000000000002925886600000000000000000000362537500000000000000000000000003041583800000000000000000000362525000000000000000000000000002884896400000000000000000000362512500000000000000000000000002801713500000000000000000000362500000000000000000000000000002765496600000000000000000000362487500000000000000000000000002801600400000000000000000000362475000000000000000000000000002749527800000000000000000000362462500000000000000000000000002870172700000000000000000000362450000000000000000000000000002723461700000000000000000000362437500000000000000000000000002618983100000000000000000000362425000000000000000000000000002786084600000000000000000000362412500000000000000000000000002964027500000000000000000000362400000000000000000000000000003068905200000000000000000000362387500000000000000000000000003124239000000000000000000000362375000000000000000000000000002830816000000000000000000000362362500000000000000000000000002903243800000000000000000000362350000000000000000000000000002863093800000000000000000000362337500000000000000000000000002692790000000000000000000000362325000000000000000000000000003047216300000000000000000000362312500000000000000000000000002981079600000000000000000000362300000000000000000000000000002777216000000000000000000000362287500000000000000000000000002795889200000000000000000000362275000000000000000000000000002752681400000000000000000000362262500000000000000000000000002510305000000000000000000000362250000000000000000000000000002500893000000000000000000000362237500000000000000000000000002522904000000000000000000000362225000000000000000000000000002986699100000000000000000000362212500000000000000000000000003001228600000000000000000000362200000000000000000000000000002854127900000000000000000000362187500000000000000000000000002722578400000000000000000000362175000000000000000000000000002699460400000000000000000000362162500000000000000000000000002752057200000000000000000000362150000000000000000000000000002703786300000000000000000000362137500000000000000000000000002863130000000000000000000000362125000000000000000000000000002844639500000000000000000000362112500000000000000000000000002906238400000000000000000000362100000000000000000000000000002688252600000000000000000000362087500000000000000000000000002790047700000000000000000000362075000000000000000000000000002762820100000000000000000000362062500000000000000000000000002903712500000000000000000000362050000000000000000000000000002669962900000000000000000000362037500000000000000000000000002559123600000000000000000000362025000000000000000000000000002731887200000000000000000000362012500000000000000000000000002994424100000000000000000000362000000000000000000000000000003023748500000000000000000000361987500000000000000000000000003058242300000000000000000000361975000000000000000000000000003024912200000000000000000000361962500000000000000000000000002889662500000000000000000000361950000000000000000000000000002868288900000000000000000000361937500000000000000000000000002797032700000000000000000000361925000000000000000000000000002830158800000000000000000000361912500000000000000000000000002937549400000000000000000000361900000000000000000000000000002936853300000000000000000000361887500000000000000000000000002994024600000000000000000000361875000000000000000000000000002897374700000000000000000000361862500000000000000000000000002915365900000000000000000000361850000000000000000000000000003010837900000000000000000000361837500000000000000000000000002740518600000000000000000000361825000000000000000000000000002694009100000000000000000000361812500000000000000000000000002909942900000000000000000000361800000000000000000000,
    2948642500000000000000000000363387500000000000000000000000002981280900000000000000000000363375000000000000000000000000002934833000000000000000000000363362500000000000000000000000002998679000000000000000000000363350000000000000000000000000002953687300000000000000000000363337500000000000000000000000002912756200000000000000000000363325000000000000000000000000002794943600000000000000000000363312500000000000000000000000002996491100000000000000000000363300000000000000000000000000003074542600000000000000000000363287500000000000000000000000003110559000000000000000000000363275000000000000000000000000003059065200000000000000000000363262500000000000000000000000003006076000000000000000000000363250000000000000000000000000002991590500000000000000000000363237500000000000000000000000002845457200000000000000000000363225000000000000000000000000002699396400000000000000000000363212500000000000000000000000002502676500000000000000000000363200000000000000000000000000002661722300000000000000000000363187500000000000000000000000002698184600000000000000000000363175000000000000000000000000002621414500000000000000000000363162500000000000000000000000002741978600000000000000000000363150000000000000000000000000002785731000000000000000000000363137500000000000000000000000002871524500000000000000000000363125000000000000000000000000003039992000000000000000000000363112500000000000000000000000002668784500000000000000000000363100000000000000000000000000002676301600000000000000000000363087500000000000000000000000002509186600000000000000000000363075000000000000000000000000002819719500000000000000000000363062500000000000000000000000002977898400000000000000000000363050000000000000000000000000003078855900000000000000000000363037500000000000000000000000003026294600000000000000000000363025000000000000000000000000003143413900000000000000000000363012500000000000000000000000002809737400000000000000000000363000000000000000000000000000002689502800000000000000000000362987500000000000000000000000002783782100000000000000000000362975000000000000000000000000002778698200000000000000000000362962500000000000000000000000002773353100000000000000000000362950000000000000000000000000002816699700000000000000000000362937500000000000000000000000002725800500000000000000000000362925000000000000000000000000003003966000000000000000000000362912500000000000000000000000003081172200000000000000000000362900000000000000000000000000002941390100000000000000000000362887500000000000000000000000002770819600000000000000000000362875000000000000000000000000002801870200000000000000000000362862500000000000000000000000002761108900000000000000000000362850000000000000000000000000002739551900000000000000000000362837500000000000000000000000002863141600000000000000000000362825000000000000000000000000002953385800000000000000000000362812500000000000000000000000002883786800000000000000000000362800000000000000000000000000002942185500000000000000000000362787500000000000000000000000002993283700000000000000000000362775000000000000000000000000003020931200000000000000000000362762500000000000000000000000002954750200000000000000000000362750000000000000000000000000002894950600000000000000000000362737500000000000000000000000002803427100000000000000000000362725000000000000000000000000002701947700000000000000000000362712500000000000000000000000002750151700000000000000000000362700000000000000000000000000002949039600000000000000000000362687500000000000000000000000002971283200000000000000000000362675000000000000000000000000002784978100000000000000000000362662500000000000000000000000002743137200000000000000000000362650000000000000000000000000002836703200000000000000000000362637500000000000000000000000002738096300000000000000000000362625000000000000000000000000002579059500000000000000000000362612500000000000000000000000002753079700000000000000000000362600000000000000000000,
    2843016800000000000000000000364187500000000000000000000000002896137400000000000000000000364175000000000000000000000000002898926300000000000000000000364162500000000000000000000000003006186300000000000000000000364150000000000000000000000000002950329700000000000000000000364137500000000000000000000000002945697200000000000000000000364125000000000000000000000000003031581700000000000000000000364112500000000000000000000000002977659100000000000000000000364100000000000000000000000000002856493200000000000000000000364087500000000000000000000000003236185000000000000000000000364075000000000000000000000000003055231100000000000000000000364062500000000000000000000000002769471000000000000000000000364050000000000000000000000000002743046400000000000000000000364037500000000000000000000000003029880800000000000000000000364025000000000000000000000000002915294300000000000000000000364012500000000000000000000000002668686700000000000000000000364000000000000000000000000000002912527500000000000000000000363987500000000000000000000000002900833100000000000000000000363975000000000000000000000000002831248400000000000000000000363962500000000000000000000000002748342500000000000000000000363950000000000000000000000000002810178600000000000000000000363937500000000000000000000000002936461900000000000000000000363925000000000000000000000000003160175800000000000000000000363912500000000000000000000000003015123000000000000000000000363900000000000000000000000000002826735900000000000000000000363887500000000000000000000000002703475500000000000000000000363875000000000000000000000000002811917300000000000000000000363862500000000000000000000000002871261100000000000000000000363850000000000000000000000000002912988200000000000000000000363837500000000000000000000000002886884400000000000000000000363825000000000000000000000000002809591700000000000000000000363812500000000000000000000000002650830300000000000000000000363800000000000000000000000000002774710200000000000000000000363787500000000000000000000000002980802100000000000000000000363775000000000000000000000000002772812900000000000000000000363762500000000000000000000000002839453500000000000000000000363750000000000000000000000000002883245200000000000000000000363737500000000000000000000000002678302500000000000000000000363725000000000000000000000000002698589600000000000000000000363712500000000000000000000000002636398200000000000000000000363700000000000000000000000000002603438100000000000000000000363687500000000000000000000000002647759400000000000000000000363675000000000000000000000000002720615200000000000000000000363662500000000000000000000000002666043200000000000000000000363650000000000000000000000000002867366200000000000000000000363637500000000000000000000000003149989200000000000000000000363625000000000000000000000000002857977600000000000000000000363612500000000000000000000000002798373200000000000000000000363600000000000000000000000000002911436100000000000000000000363587500000000000000000000000002851966200000000000000000000363575000000000000000000000000002507469700000000000000000000363562500000000000000000000000002563488000000000000000000000363550000000000000000000000000002899101700000000000000000000363537500000000000000000000000002786536600000000000000000000363525000000000000000000000000002608504400000000000000000000363512500000000000000000000000002879634000000000000000000000363500000000000000000000000000002927084800000000000000000000363487500000000000000000000000003089833800000000000000000000363475000000000000000000000000003007610300000000000000000000363462500000000000000000000000002989994800000000000000000000363450000000000000000000000000003195028800000000000000000000363437500000000000000000000000002895377800000000000000000000363425000000000000000000000000002984143100000000000000000000363412500000000000000000000000003060370300000000000000000000363400000000000000000000,
    2876896800000000000000000000364987500000000000000000000000002873310200000000000000000000364975000000000000000000000000002903524500000000000000000000364962500000000000000000000000002820697100000000000000000000364950000000000000000000000000002674346900000000000000000000364937500000000000000000000000002610396200000000000000000000364925000000000000000000000000002809022400000000000000000000364912500000000000000000000000002810197500000000000000000000364900000000000000000000000000003053688100000000000000000000364887500000000000000000000000003137528400000000000000000000364875000000000000000000000000002755445900000000000000000000364862500000000000000000000000002702750700000000000000000000364850000000000000000000000000002889738400000000000000000000364837500000000000000000000000002903867000000000000000000000364825000000000000000000000000002949223200000000000000000000364812500000000000000000000000002824949000000000000000000000364800000000000000000000000000002729791400000000000000000000364787500000000000000000000000002980393100000000000000000000364775000000000000000000000000003052338600000000000000000000364762500000000000000000000000002971761500000000000000000000364750000000000000000000000000003040363200000000000000000000364737500000000000000000000000003142218100000000000000000000364725000000000000000000000000002840033400000000000000000000364712500000000000000000000000002819712000000000000000000000364700000000000000000000000000002916095100000000000000000000364687500000000000000000000000002911631100000000000000000000364675000000000000000000000000002920164100000000000000000000364662500000000000000000000000002976419000000000000000000000364650000000000000000000000000002878407400000000000000000000364637500000000000000000000000002776708700000000000000000000364625000000000000000000000000002815646400000000000000000000364612500000000000000000000000002949543700000000000000000000364600000000000000000000000000002978220300000000000000000000364587500000000000000000000000002799387400000000000000000000364575000000000000000000000000002899892300000000000000000000364562500000000000000000000000002967595100000000000000000000364550000000000000000000000000002894785800000000000000000000364537500000000000000000000000002837218600000000000000000000364525000000000000000000000000002947871500000000000000000000364512500000000000000000000000003038448900000000000000000000364500000000000000000000000000002864253300000000000000000000364487500000000000000000000000002760481000000000000000000000364475000000000000000000000000002647412500000000000000000000364462500000000000000000000000003138787400000000000000000000364450000000000000000000000000002939309400000000000000000000364437500000000000000000000000002716661500000000000000000000364425000000000000000000000000002831259500000000000000000000364412500000000000000000000000002817017100000000000000000000364400000000000000000000000000003098635900000000000000000000364387500000000000000000000000002873598300000000000000000000364375000000000000000000000000002721446000000000000000000000364362500000000000000000000000002891049200000000000000000000364350000000000000000000000000002877717400000000000000000000364337500000000000000000000000002999502600000000000000000000364325000000000000000000000000003031112000000000000000000000364312500000000000000000000000002776898200000000000000000000364300000000000000000000000000002791512800000000000000000000364287500000000000000000000000002838472000000000000000000000364275000000000000000000000000002971439700000000000000000000364262500000000000000000000000002941990400000000000000000000364250000000000000000000000000002993475900000000000000000000364237500000000000000000000000002841013100000000000000000000364225000000000000000000000000002982842400000000000000000000364212500000000000000000000000002727339900000000000000000000364200000000000000000000,
    2995645900000000000000000000365787500000000000000000000000003011697100000000000000000000365775000000000000000000000000003041385800000000000000000000365762500000000000000000000000002987772000000000000000000000365750000000000000000000000000003076352500000000000000000000365737500000000000000000000000002992560900000000000000000000365725000000000000000000000000002965168000000000000000000000365712500000000000000000000000002945579300000000000000000000365700000000000000000000000000002720687500000000000000000000365687500000000000000000000000002850618500000000000000000000365675000000000000000000000000002866644000000000000000000000365662500000000000000000000000002893128100000000000000000000365650000000000000000000000000002990689000000000000000000000365637500000000000000000000000002722157500000000000000000000365625000000000000000000000000002676792100000000000000000000365612500000000000000000000000002895183600000000000000000000365600000000000000000000000000002873194400000000000000000000365587500000000000000000000000002710021100000000000000000000365575000000000000000000000000002551874800000000000000000000365562500000000000000000000000002924960700000000000000000000365550000000000000000000000000003013395600000000000000000000365537500000000000000000000000002968069600000000000000000000365525000000000000000000000000003063962500000000000000000000365512500000000000000000000000002717419500000000000000000000365500000000000000000000000000002879427900000000000000000000365487500000000000000000000000003019879300000000000000000000365475000000000000000000000000002920447600000000000000000000365462500000000000000000000000002715929200000000000000000000365450000000000000000000000000002704786800000000000000000000365437500000000000000000000000002790616400000000000000000000365425000000000000000000000000003075925200000000000000000000365412500000000000000000000000003003659900000000000000000000365400000000000000000000000000003085286100000000000000000000365387500000000000000000000000002805717100000000000000000000365375000000000000000000000000002904667200000000000000000000365362500000000000000000000000002952513100000000000000000000365350000000000000000000000000002884336400000000000000000000365337500000000000000000000000002983423000000000000000000000365325000000000000000000000000002781492800000000000000000000365312500000000000000000000000002747907500000000000000000000365300000000000000000000000000002754870300000000000000000000365287500000000000000000000000002668568100000000000000000000365275000000000000000000000000002608596200000000000000000000365262500000000000000000000000002739578400000000000000000000365250000000000000000000000000002778491700000000000000000000365237500000000000000000000000002895219300000000000000000000365225000000000000000000000000003178652600000000000000000000365212500000000000000000000000002921781500000000000000000000365200000000000000000000000000002596608200000000000000000000365187500000000000000000000000002748273800000000000000000000365175000000000000000000000000002986986300000000000000000000365162500000000000000000000000003179417900000000000000000000365150000000000000000000000000003062223300000000000000000000365137500000000000000000000000002977060000000000000000000000365125000000000000000000000000002835583300000000000000000000365112500000000000000000000000002906385800000000000000000000365100000000000000000000000000003080803900000000000000000000365087500000000000000000000000003001948700000000000000000000365075000000000000000000000000002920910800000000000000000000365062500000000000000000000000002884450600000000000000000000365050000000000000000000000000002906545500000000000000000000365037500000000000000000000000002767575300000000000000000000365025000000000000000000000000002904473100000000000000000000365012500000000000000000000000003018646900000000000000000000365000000000000000000000,
    3209828000000000000000000000366587500000000000000000000000002866197700000000000000000000366575000000000000000000000000003003958000000000000000000000366562500000000000000000000000003210233800000000000000000000366550000000000000000000000000003200275700000000000000000000366537500000000000000000000000003203417400000000000000000000366525000000000000000000000000003113795700000000000000000000366512500000000000000000000000003049203500000000000000000000366500000000000000000000000000002935665500000000000000000000366487500000000000000000000000002738315200000000000000000000366475000000000000000000000000002807120800000000000000000000366462500000000000000000000000002901608500000000000000000000366450000000000000000000000000002859261300000000000000000000366437500000000000000000000000003086717700000000000000000000366425000000000000000000000000003001268200000000000000000000366412500000000000000000000000003145252600000000000000000000366400000000000000000000000000003391932400000000000000000000366387500000000000000000000000002949877600000000000000000000366375000000000000000000000000002762668000000000000000000000366362500000000000000000000000002843193100000000000000000000366350000000000000000000000000003127228500000000000000000000366337500000000000000000000000002942865400000000000000000000366325000000000000000000000000002954858500000000000000000000366312500000000000000000000000002726100200000000000000000000366300000000000000000000000000002640066700000000000000000000366287500000000000000000000000002791220300000000000000000000366275000000000000000000000000002839777700000000000000000000366262500000000000000000000000002823433800000000000000000000366250000000000000000000000000002418354600000000000000000000366237500000000000000000000000002719446800000000000000000000366225000000000000000000000000003078226600000000000000000000366212500000000000000000000000003079256800000000000000000000366200000000000000000000000000003281186100000000000000000000366187500000000000000000000000003086394300000000000000000000366175000000000000000000000000002910878000000000000000000000366162500000000000000000000000002896803300000000000000000000366150000000000000000000000000003017706500000000000000000000366137500000000000000000000000002810458000000000000000000000366125000000000000000000000000002581513900000000000000000000366112500000000000000000000000002571774200000000000000000000366100000000000000000000000000002607606800000000000000000000366087500000000000000000000000002715331800000000000000000000366075000000000000000000000000002853198200000000000000000000366062500000000000000000000000002892464200000000000000000000366050000000000000000000000000002953108600000000000000000000366037500000000000000000000000002985275800000000000000000000366025000000000000000000000000002998974900000000000000000000366012500000000000000000000000003055094300000000000000000000366000000000000000000000000000002922461000000000000000000000365987500000000000000000000000002973421400000000000000000000365975000000000000000000000000003110064700000000000000000000365962500000000000000000000000002930810800000000000000000000365950000000000000000000000000003113340100000000000000000000365937500000000000000000000000003133586500000000000000000000365925000000000000000000000000003101990500000000000000000000365912500000000000000000000000003214957700000000000000000000365900000000000000000000000000003265662700000000000000000000365887500000000000000000000000002974478900000000000000000000365875000000000000000000000000002975603800000000000000000000365862500000000000000000000000002916029000000000000000000000365850000000000000000000000000002931984800000000000000000000365837500000000000000000000000002806910300000000000000000000365825000000000000000000000000002780850000000000000000000000365812500000000000000000000000002968539800000000000000000000365800000000000000000000,
    3098880100000000000000000000367387500000000000000000000000002889374100000000000000000000367375000000000000000000000000002769176200000000000000000000367362500000000000000000000000003074704700000000000000000000367350000000000000000000000000003063620000000000000000000000367337500000000000000000000000002985094500000000000000000000367325000000000000000000000000002941213300000000000000000000367312500000000000000000000000003005629300000000000000000000367300000000000000000000000000002985920800000000000000000000367287500000000000000000000000003170044100000000000000000000367275000000000000000000000000003174873600000000000000000000367262500000000000000000000000002995121200000000000000000000367250000000000000000000000000003092129400000000000000000000367237500000000000000000000000003048760600000000000000000000367225000000000000000000000000003067586100000000000000000000367212500000000000000000000000003109453700000000000000000000367200000000000000000000000000002937316000000000000000000000367187500000000000000000000000002907381600000000000000000000367175000000000000000000000000003074982800000000000000000000367162500000000000000000000000002844432800000000000000000000367150000000000000000000000000002682104100000000000000000000367137500000000000000000000000002880419800000000000000000000367125000000000000000000000000003057002200000000000000000000367112500000000000000000000000003338589700000000000000000000367100000000000000000000000000003328476100000000000000000000367087500000000000000000000000003196914700000000000000000000367075000000000000000000000000003051527900000000000000000000367062500000000000000000000000002909311500000000000000000000367050000000000000000000000000002914270700000000000000000000367037500000000000000000000000003205684300000000000000000000367025000000000000000000000000003032114700000000000000000000367012500000000000000000000000003017848200000000000000000000367000000000000000000000000000003056028300000000000000000000366987500000000000000000000000002972578700000000000000000000366975000000000000000000000000003007572700000000000000000000366962500000000000000000000000002988326900000000000000000000366950000000000000000000000000002888539200000000000000000000366937500000000000000000000000002903003200000000000000000000366925000000000000000000000000002943041400000000000000000000366912500000000000000000000000003166593400000000000000000000366900000000000000000000000000003364828200000000000000000000366887500000000000000000000000003059210500000000000000000000366875000000000000000000000000002830691100000000000000000000366862500000000000000000000000002754861000000000000000000000366850000000000000000000000000002737269600000000000000000000366837500000000000000000000000002806317300000000000000000000366825000000000000000000000000003070792400000000000000000000366812500000000000000000000000003020459900000000000000000000366800000000000000000000000000003016543600000000000000000000366787500000000000000000000000002996130000000000000000000000366775000000000000000000000000003102776500000000000000000000366762500000000000000000000000003330940200000000000000000000366750000000000000000000000000003101287900000000000000000000366737500000000000000000000000002884751200000000000000000000366725000000000000000000000000002957325600000000000000000000366712500000000000000000000000003225175600000000000000000000366700000000000000000000000000004356844300000000000000000000366687500000000000000000000000005539782900000000000000000000366675000000000000000000000000004229009900000000000000000000366662500000000000000000000000003223511900000000000000000000366650000000000000000000000000003074307400000000000000000000366637500000000000000000000000003126758500000000000000000000366625000000000000000000000000002794481600000000000000000000366612500000000000000000000000003111710500000000000000000000366600000000000000000000,
    2942434800000000000000000000368187500000000000000000000000002644070300000000000000000000368175000000000000000000000000002899482300000000000000000000368162500000000000000000000000002948922100000000000000000000368150000000000000000000000000002871445200000000000000000000368137500000000000000000000000002913711300000000000000000000368125000000000000000000000000003081372300000000000000000000368112500000000000000000000000002958905100000000000000000000368100000000000000000000000000002831781100000000000000000000368087500000000000000000000000002789507700000000000000000000368075000000000000000000000000002942275100000000000000000000368062500000000000000000000000002987457500000000000000000000368050000000000000000000000000003077421800000000000000000000368037500000000000000000000000002826644300000000000000000000368025000000000000000000000000002895583600000000000000000000368012500000000000000000000000003020812900000000000000000000368000000000000000000000000000003062161800000000000000000000367987500000000000000000000000003116952500000000000000000000367975000000000000000000000000003013098200000000000000000000367962500000000000000000000000002916707800000000000000000000367950000000000000000000000000002843333300000000000000000000367937500000000000000000000000002887082600000000000000000000367925000000000000000000000000003173038400000000000000000000367912500000000000000000000000002939631600000000000000000000367900000000000000000000000000002940851000000000000000000000367887500000000000000000000000002910944400000000000000000000367875000000000000000000000000002776820700000000000000000000367862500000000000000000000000002851093100000000000000000000367850000000000000000000000000002904806900000000000000000000367837500000000000000000000000002729619100000000000000000000367825000000000000000000000000002800072300000000000000000000367812500000000000000000000000002928233200000000000000000000367800000000000000000000000000002953980100000000000000000000367787500000000000000000000000002870429800000000000000000000367775000000000000000000000000002796623700000000000000000000367762500000000000000000000000002694970200000000000000000000367750000000000000000000000000002957358700000000000000000000367737500000000000000000000000003046746100000000000000000000367725000000000000000000000000003022052900000000000000000000367712500000000000000000000000003054715400000000000000000000367700000000000000000000000000003070701400000000000000000000367687500000000000000000000000003012428000000000000000000000367675000000000000000000000000003165394400000000000000000000367662500000000000000000000000003104076500000000000000000000367650000000000000000000000000003109380500000000000000000000367637500000000000000000000000003059329800000000000000000000367625000000000000000000000000002972703100000000000000000000367612500000000000000000000000002781024900000000000000000000367600000000000000000000000000002995666700000000000000000000367587500000000000000000000000003055842100000000000000000000367575000000000000000000000000003145846300000000000000000000367562500000000000000000000000003025162400000000000000000000367550000000000000000000000000002961814100000000000000000000367537500000000000000000000000002888294600000000000000000000367525000000000000000000000000002890852700000000000000000000367512500000000000000000000000003118203400000000000000000000367500000000000000000000000000002987004800000000000000000000367487500000000000000000000000003005977900000000000000000000367475000000000000000000000000002904919800000000000000000000367462500000000000000000000000002996404600000000000000000000367450000000000000000000000000002978096500000000000000000000367437500000000000000000000000003218913300000000000000000000367425000000000000000000000000003225012200000000000000000000367412500000000000000000000000003282949100000000000000000000367400000000000000000000,
    3005289000000000000000000000368987500000000000000000000000002963541500000000000000000000368975000000000000000000000000002981637500000000000000000000368962500000000000000000000000003073509500000000000000000000368950000000000000000000000000002943234400000000000000000000368937500000000000000000000000003069969600000000000000000000368925000000000000000000000000002873056500000000000000000000368912500000000000000000000000002870779700000000000000000000368900000000000000000000000000002933764900000000000000000000368887500000000000000000000000003174105300000000000000000000368875000000000000000000000000003258742200000000000000000000368862500000000000000000000000003092691100000000000000000000368850000000000000000000000000002908709100000000000000000000368837500000000000000000000000002876334100000000000000000000368825000000000000000000000000002747053200000000000000000000368812500000000000000000000000002842109500000000000000000000368800000000000000000000000000002894805800000000000000000000368787500000000000000000000000002976306500000000000000000000368775000000000000000000000000002908929800000000000000000000368762500000000000000000000000002902615400000000000000000000368750000000000000000000000000003075657000000000000000000000368737500000000000000000000000003018018000000000000000000000368725000000000000000000000000003084173200000000000000000000368712500000000000000000000000002963968400000000000000000000368700000000000000000000000000002864173500000000000000000000368687500000000000000000000000002944711900000000000000000000368675000000000000000000000000003027879100000000000000000000368662500000000000000000000000002959746700000000000000000000368650000000000000000000000000002670607800000000000000000000368637500000000000000000000000002762207700000000000000000000368625000000000000000000000000003041720100000000000000000000368612500000000000000000000000003045680600000000000000000000368600000000000000000000000000002926486600000000000000000000368587500000000000000000000000002883123400000000000000000000368575000000000000000000000000003372504800000000000000000000368562500000000000000000000000003145809800000000000000000000368550000000000000000000000000002941158100000000000000000000368537500000000000000000000000002922554500000000000000000000368525000000000000000000000000002884801800000000000000000000368512500000000000000000000000002688729500000000000000000000368500000000000000000000000000002932293700000000000000000000368487500000000000000000000000003121915400000000000000000000368475000000000000000000000000002863233200000000000000000000368462500000000000000000000000003038508800000000000000000000368450000000000000000000000000003116950200000000000000000000368437500000000000000000000000003093546400000000000000000000368425000000000000000000000000002975188600000000000000000000368412500000000000000000000000002744473500000000000000000000368400000000000000000000000000002898283700000000000000000000368387500000000000000000000000002874043800000000000000000000368375000000000000000000000000002674725900000000000000000000368362500000000000000000000000002732281200000000000000000000368350000000000000000000000000002590950200000000000000000000368337500000000000000000000000002784726300000000000000000000368325000000000000000000000000002896848500000000000000000000368312500000000000000000000000002755889100000000000000000000368300000000000000000000000000002658377300000000000000000000368287500000000000000000000000003013347600000000000000000000368275000000000000000000000000002907272600000000000000000000368262500000000000000000000000003180116800000000000000000000368250000000000000000000000000003053311600000000000000000000368237500000000000000000000000002799615900000000000000000000368225000000000000000000000000003062966800000000000000000000368212500000000000000000000000003318283500000000000000000000368200000000000000000000,
    2750852900000000000000000000369787500000000000000000000000002923064100000000000000000000369775000000000000000000000000003288882300000000000000000000369762500000000000000000000000003488225700000000000000000000369750000000000000000000000000003286833000000000000000000000369737500000000000000000000000002887779200000000000000000000369725000000000000000000000000002890029800000000000000000000369712500000000000000000000000003011004900000000000000000000369700000000000000000000000000003219986800000000000000000000369687500000000000000000000000003112134300000000000000000000369675000000000000000000000000002978596800000000000000000000369662500000000000000000000000002941207200000000000000000000369650000000000000000000000000003021326500000000000000000000369637500000000000000000000000002839295600000000000000000000369625000000000000000000000000002732848900000000000000000000369612500000000000000000000000002760500200000000000000000000369600000000000000000000000000002815690400000000000000000000369587500000000000000000000000002738516900000000000000000000369575000000000000000000000000002709913300000000000000000000369562500000000000000000000000002811223200000000000000000000369550000000000000000000000000003004391900000000000000000000369537500000000000000000000000002920912600000000000000000000369525000000000000000000000000002855944100000000000000000000369512500000000000000000000000003105152600000000000000000000369500000000000000000000000000003229122600000000000000000000369487500000000000000000000000003162652100000000000000000000369475000000000000000000000000003035631200000000000000000000369462500000000000000000000000003053755800000000000000000000369450000000000000000000000000003134309800000000000000000000369437500000000000000000000000003227442600000000000000000000369425000000000000000000000000003160315100000000000000000000369412500000000000000000000000002895863900000000000000000000369400000000000000000000000000002839042300000000000000000000369387500000000000000000000000002864770600000000000000000000369375000000000000000000000000002899640800000000000000000000369362500000000000000000000000002989036900000000000000000000369350000000000000000000000000002752052700000000000000000000369337500000000000000000000000002852883700000000000000000000369325000000000000000000000000002995418300000000000000000000369312500000000000000000000000003060265300000000000000000000369300000000000000000000000000003143520800000000000000000000369287500000000000000000000000003013007200000000000000000000369275000000000000000000000000003293905700000000000000000000369262500000000000000000000000002775810200000000000000000000369250000000000000000000000000002674516900000000000000000000369237500000000000000000000000003030375000000000000000000000369225000000000000000000000000002934371900000000000000000000369212500000000000000000000000002924574100000000000000000000369200000000000000000000000000002890885800000000000000000000369187500000000000000000000000003114878800000000000000000000369175000000000000000000000000002976404600000000000000000000369162500000000000000000000000002946512200000000000000000000369150000000000000000000000000003218835100000000000000000000369137500000000000000000000000003177138600000000000000000000369125000000000000000000000000002892427400000000000000000000369112500000000000000000000000002765679100000000000000000000369100000000000000000000000000002982144300000000000000000000369087500000000000000000000000003082098900000000000000000000369075000000000000000000000000002959298100000000000000000000369062500000000000000000000000002879224000000000000000000000369050000000000000000000000000003081747000000000000000000000369037500000000000000000000000003032632700000000000000000000369025000000000000000000000000003051205900000000000000000000369012500000000000000000000000003039575700000000000000000000369000000000000000000000,
    2639175600000000000000000000370587500000000000000000000000003151608900000000000000000000370575000000000000000000000000003262055700000000000000000000370562500000000000000000000000003049010600000000000000000000370550000000000000000000000000002972633500000000000000000000370537500000000000000000000000003066469000000000000000000000370525000000000000000000000000002993093800000000000000000000370512500000000000000000000000003130486000000000000000000000370500000000000000000000000000002870999100000000000000000000370487500000000000000000000000003053328100000000000000000000370475000000000000000000000000003077388000000000000000000000370462500000000000000000000000002921844700000000000000000000370450000000000000000000000000003103002600000000000000000000370437500000000000000000000000003267652500000000000000000000370425000000000000000000000000002986839400000000000000000000370412500000000000000000000000002898073300000000000000000000370400000000000000000000000000003142835200000000000000000000370387500000000000000000000000002898291000000000000000000000370375000000000000000000000000002884934700000000000000000000370362500000000000000000000000002957470800000000000000000000370350000000000000000000000000003038653300000000000000000000370337500000000000000000000000003067142500000000000000000000370325000000000000000000000000002925559500000000000000000000370312500000000000000000000000003018875500000000000000000000370300000000000000000000000000002965663300000000000000000000370287500000000000000000000000002784585400000000000000000000370275000000000000000000000000002726832500000000000000000000370262500000000000000000000000002870915200000000000000000000370250000000000000000000000000003218781900000000000000000000370237500000000000000000000000003279635300000000000000000000370225000000000000000000000000003182716000000000000000000000370212500000000000000000000000003134648500000000000000000000370200000000000000000000000000002945921200000000000000000000370187500000000000000000000000002963368100000000000000000000370175000000000000000000000000003073604000000000000000000000370162500000000000000000000000002905130400000000000000000000370150000000000000000000000000003033342200000000000000000000370137500000000000000000000000003165506600000000000000000000370125000000000000000000000000003278651800000000000000000000370112500000000000000000000000003067944400000000000000000000370100000000000000000000000000002955002300000000000000000000370087500000000000000000000000002964977200000000000000000000370075000000000000000000000000003090861000000000000000000000370062500000000000000000000000002929208200000000000000000000370050000000000000000000000000002882113100000000000000000000370037500000000000000000000000002749282800000000000000000000370025000000000000000000000000002915998100000000000000000000370012500000000000000000000000003100025500000000000000000000370000000000000000000000000000002861222800000000000000000000369987500000000000000000000000002742656900000000000000000000369975000000000000000000000000002765788500000000000000000000369962500000000000000000000000003009694000000000000000000000369950000000000000000000000000002975322500000000000000000000369937500000000000000000000000002922947800000000000000000000369925000000000000000000000000002849419700000000000000000000369912500000000000000000000000003086638500000000000000000000369900000000000000000000000000003154692400000000000000000000369887500000000000000000000000002899804600000000000000000000369875000000000000000000000000002837485000000000000000000000369862500000000000000000000000002783625900000000000000000000369850000000000000000000000000002852392500000000000000000000369837500000000000000000000000002809313400000000000000000000369825000000000000000000000000002742920700000000000000000000369812500000000000000000000000002951613300000000000000000000369800000000000000000000,
    2881201900000000000000000000371387500000000000000000000000003008956800000000000000000000371375000000000000000000000000003059943900000000000000000000371362500000000000000000000000002862818900000000000000000000371350000000000000000000000000002764448200000000000000000000371337500000000000000000000000002781858800000000000000000000371325000000000000000000000000002802720900000000000000000000371312500000000000000000000000002913641100000000000000000000371300000000000000000000000000002972479500000000000000000000371287500000000000000000000000003172470900000000000000000000371275000000000000000000000000003223334900000000000000000000371262500000000000000000000000003208257300000000000000000000371250000000000000000000000000003225047300000000000000000000371237500000000000000000000000003078933000000000000000000000371225000000000000000000000000002792787300000000000000000000371212500000000000000000000000002689664200000000000000000000371200000000000000000000000000002706537100000000000000000000371187500000000000000000000000002817487300000000000000000000371175000000000000000000000000002992696300000000000000000000371162500000000000000000000000002857619000000000000000000000371150000000000000000000000000003339241700000000000000000000371137500000000000000000000000003227537300000000000000000000371125000000000000000000000000003021096400000000000000000000371112500000000000000000000000002992823600000000000000000000371100000000000000000000000000002904071400000000000000000000371087500000000000000000000000002797173100000000000000000000371075000000000000000000000000002809403800000000000000000000371062500000000000000000000000002908136200000000000000000000371050000000000000000000000000002953043800000000000000000000371037500000000000000000000000002965080500000000000000000000371025000000000000000000000000002919847700000000000000000000371012500000000000000000000000002904225300000000000000000000371000000000000000000000000000003012978800000000000000000000370987500000000000000000000000003009178600000000000000000000370975000000000000000000000000003042264900000000000000000000370962500000000000000000000000002933988400000000000000000000370950000000000000000000000000003112344100000000000000000000370937500000000000000000000000003061590500000000000000000000370925000000000000000000000000003001989100000000000000000000370912500000000000000000000000003114930600000000000000000000370900000000000000000000000000003043937900000000000000000000370887500000000000000000000000002958042700000000000000000000370875000000000000000000000000003107057500000000000000000000370862500000000000000000000000003375089000000000000000000000370850000000000000000000000000003436828600000000000000000000370837500000000000000000000000003059366700000000000000000000370825000000000000000000000000002962649800000000000000000000370812500000000000000000000000002976442300000000000000000000370800000000000000000000000000002988115200000000000000000000370787500000000000000000000000003153110100000000000000000000370775000000000000000000000000003224961000000000000000000000370762500000000000000000000000003163418900000000000000000000370750000000000000000000000000003194900600000000000000000000370737500000000000000000000000002703967900000000000000000000370725000000000000000000000000002963431600000000000000000000370712500000000000000000000000002822053400000000000000000000370700000000000000000000000000002752351600000000000000000000370687500000000000000000000000002998597000000000000000000000370675000000000000000000000000002976415900000000000000000000370662500000000000000000000000003061890900000000000000000000370650000000000000000000000000003156115000000000000000000000370637500000000000000000000000003018175600000000000000000000370625000000000000000000000000002937763400000000000000000000370612500000000000000000000000002761843600000000000000000000370600000000000000000000,
    2950500300000000000000000000372187500000000000000000000000003082745600000000000000000000372175000000000000000000000000003193741300000000000000000000372162500000000000000000000000003056096700000000000000000000372150000000000000000000000000002999446900000000000000000000372137500000000000000000000000003080917900000000000000000000372125000000000000000000000000002899145200000000000000000000372112500000000000000000000000002899272800000000000000000000372100000000000000000000000000002952366700000000000000000000372087500000000000000000000000003104903200000000000000000000372075000000000000000000000000003162441500000000000000000000372062500000000000000000000000002969162600000000000000000000372050000000000000000000000000002726912300000000000000000000372037500000000000000000000000003025087700000000000000000000372025000000000000000000000000002836195400000000000000000000372012500000000000000000000000003160565300000000000000000000372000000000000000000000000000003095680400000000000000000000371987500000000000000000000000002917739100000000000000000000371975000000000000000000000000002951288500000000000000000000371962500000000000000000000000003224930600000000000000000000371950000000000000000000000000003080671900000000000000000000371937500000000000000000000000002828650800000000000000000000371925000000000000000000000000002719366400000000000000000000371912500000000000000000000000003095807800000000000000000000371900000000000000000000000000003186997500000000000000000000371887500000000000000000000000002905377200000000000000000000371875000000000000000000000000002856165800000000000000000000371862500000000000000000000000003083047900000000000000000000371850000000000000000000000000002943389400000000000000000000371837500000000000000000000000003015314700000000000000000000371825000000000000000000000000003410112300000000000000000000371812500000000000000000000000003394826400000000000000000000371800000000000000000000000000002906739100000000000000000000371787500000000000000000000000002847938700000000000000000000371775000000000000000000000000003018444600000000000000000000371762500000000000000000000000003128626800000000000000000000371750000000000000000000000000002848867200000000000000000000371737500000000000000000000000002795816000000000000000000000371725000000000000000000000000002670374300000000000000000000371712500000000000000000000000002926058900000000000000000000371700000000000000000000000000003217248700000000000000000000371687500000000000000000000000003349864600000000000000000000371675000000000000000000000000003206887400000000000000000000371662500000000000000000000000002963559400000000000000000000371650000000000000000000000000002851677800000000000000000000371637500000000000000000000000002770034200000000000000000000371625000000000000000000000000002891793700000000000000000000371612500000000000000000000000002961003400000000000000000000371600000000000000000000000000002976743900000000000000000000371587500000000000000000000000003119407200000000000000000000371575000000000000000000000000002898572300000000000000000000371562500000000000000000000000003158818300000000000000000000371550000000000000000000000000003122411000000000000000000000371537500000000000000000000000003043953400000000000000000000371525000000000000000000000000002855207700000000000000000000371512500000000000000000000000002706808600000000000000000000371500000000000000000000000000002690888100000000000000000000371487500000000000000000000000002824813200000000000000000000371475000000000000000000000000002671142700000000000000000000371462500000000000000000000000002936864600000000000000000000371450000000000000000000000000003074890800000000000000000000371437500000000000000000000000003257760300000000000000000000371425000000000000000000000000003179124000000000000000000000371412500000000000000000000000003010777200000000000000000000371400000000000000000000,
    3119895400000000000000000000372987500000000000000000000000003158906500000000000000000000372975000000000000000000000000002911818800000000000000000000372962500000000000000000000000003036239100000000000000000000372950000000000000000000000000002851560900000000000000000000372937500000000000000000000000002835155600000000000000000000372925000000000000000000000000003013573200000000000000000000372912500000000000000000000000003110214500000000000000000000372900000000000000000000000000003147747600000000000000000000372887500000000000000000000000002866868000000000000000000000372875000000000000000000000000002880457000000000000000000000372862500000000000000000000000002901811000000000000000000000372850000000000000000000000000002974733900000000000000000000372837500000000000000000000000003024356300000000000000000000372825000000000000000000000000003029526400000000000000000000372812500000000000000000000000002892253600000000000000000000372800000000000000000000000000002850927900000000000000000000372787500000000000000000000000003006216000000000000000000000372775000000000000000000000000003037391600000000000000000000372762500000000000000000000000003118165200000000000000000000372750000000000000000000000000003060356500000000000000000000372737500000000000000000000000002843437600000000000000000000372725000000000000000000000000002933311200000000000000000000372712500000000000000000000000002877184800000000000000000000372700000000000000000000000000002958078700000000000000000000372687500000000000000000000000002824541700000000000000000000372675000000000000000000000000002734976400000000000000000000372662500000000000000000000000002938738200000000000000000000372650000000000000000000000000002696137900000000000000000000372637500000000000000000000000002764698100000000000000000000372625000000000000000000000000003013716200000000000000000000372612500000000000000000000000002835542800000000000000000000372600000000000000000000000000002991992600000000000000000000372587500000000000000000000000003085877500000000000000000000372575000000000000000000000000003091290600000000000000000000372562500000000000000000000000003066644200000000000000000000372550000000000000000000000000002880488900000000000000000000372537500000000000000000000000002895717500000000000000000000372525000000000000000000000000002867235900000000000000000000372512500000000000000000000000002986689600000000000000000000372500000000000000000000000000002932368900000000000000000000372487500000000000000000000000002898604900000000000000000000372475000000000000000000000000002943895000000000000000000000372462500000000000000000000000003002996600000000000000000000372450000000000000000000000000002946702700000000000000000000372437500000000000000000000000002911666300000000000000000000372425000000000000000000000000003056256400000000000000000000372412500000000000000000000000002878162000000000000000000000372400000000000000000000000000002727130000000000000000000000372387500000000000000000000000002880057900000000000000000000372375000000000000000000000000003291700500000000000000000000372362500000000000000000000000003148466700000000000000000000372350000000000000000000000000003049868200000000000000000000372337500000000000000000000000002841207800000000000000000000372325000000000000000000000000003049842900000000000000000000372312500000000000000000000000002860936200000000000000000000372300000000000000000000000000002831660500000000000000000000372287500000000000000000000000002995568600000000000000000000372275000000000000000000000000002997765200000000000000000000372262500000000000000000000000002932709900000000000000000000372250000000000000000000000000002849074500000000000000000000372237500000000000000000000000002972347700000000000000000000372225000000000000000000000000003223124300000000000000000000372212500000000000000000000000003089236500000000000000000000372200000000000000000000,
    3298705400000000000000000000373787500000000000000000000000003293481000000000000000000000373775000000000000000000000000002951073700000000000000000000373762500000000000000000000000003098669300000000000000000000373750000000000000000000000000003196325800000000000000000000373737500000000000000000000000002817105100000000000000000000373725000000000000000000000000002763130200000000000000000000373712500000000000000000000000002892942000000000000000000000373700000000000000000000000000002983895700000000000000000000373687500000000000000000000000003154298700000000000000000000373675000000000000000000000000003070834600000000000000000000373662500000000000000000000000003181355300000000000000000000373650000000000000000000000000003161609600000000000000000000373637500000000000000000000000003065937900000000000000000000373625000000000000000000000000002824113300000000000000000000373612500000000000000000000000002886948700000000000000000000373600000000000000000000000000002719517300000000000000000000373587500000000000000000000000002921514200000000000000000000373575000000000000000000000000003116649300000000000000000000373562500000000000000000000000003007979200000000000000000000373550000000000000000000000000003069346300000000000000000000373537500000000000000000000000003036896800000000000000000000373525000000000000000000000000002864877300000000000000000000373512500000000000000000000000002931760100000000000000000000373500000000000000000000000000002801681900000000000000000000373487500000000000000000000000003030716100000000000000000000373475000000000000000000000000003334563900000000000000000000373462500000000000000000000000003253663300000000000000000000373450000000000000000000000000002798273500000000000000000000373437500000000000000000000000002757682300000000000000000000373425000000000000000000000000002886789700000000000000000000373412500000000000000000000000003118228100000000000000000000373400000000000000000000000000003147873100000000000000000000373387500000000000000000000000003065896800000000000000000000373375000000000000000000000000002872360300000000000000000000373362500000000000000000000000003018676600000000000000000000373350000000000000000000000000002992876800000000000000000000373337500000000000000000000000002958232100000000000000000000373325000000000000000000000000002826485200000000000000000000373312500000000000000000000000002748777400000000000000000000373300000000000000000000000000002858052800000000000000000000373287500000000000000000000000002973166600000000000000000000373275000000000000000000000000003141285600000000000000000000373262500000000000000000000000003270318400000000000000000000373250000000000000000000000000002935775600000000000000000000373237500000000000000000000000002998262300000000000000000000373225000000000000000000000000003023192300000000000000000000373212500000000000000000000000003029116700000000000000000000373200000000000000000000000000002986951500000000000000000000373187500000000000000000000000002738473000000000000000000000373175000000000000000000000000002841064600000000000000000000373162500000000000000000000000003013374600000000000000000000373150000000000000000000000000003090060700000000000000000000373137500000000000000000000000003082694700000000000000000000373125000000000000000000000000003288981600000000000000000000373112500000000000000000000000003224472200000000000000000000373100000000000000000000000000003091028900000000000000000000373087500000000000000000000000003118527400000000000000000000373075000000000000000000000000003296461700000000000000000000373062500000000000000000000000003213468700000000000000000000373050000000000000000000000000002898070500000000000000000000373037500000000000000000000000002971308500000000000000000000373025000000000000000000000000003090244100000000000000000000373012500000000000000000000000003135941100000000000000000000373000000000000000000000,
    3198882500000000000000000000374587500000000000000000000000003238882700000000000000000000374575000000000000000000000000003260655800000000000000000000374562500000000000000000000000003267328300000000000000000000374550000000000000000000000000003349382500000000000000000000374537500000000000000000000000003433309800000000000000000000374525000000000000000000000000003355906700000000000000000000374512500000000000000000000000003320819200000000000000000000374500000000000000000000000000003257721200000000000000000000374487500000000000000000000000003212474700000000000000000000374475000000000000000000000000002903718800000000000000000000374462500000000000000000000000003167100600000000000000000000374450000000000000000000000000003496196500000000000000000000374437500000000000000000000000003216841300000000000000000000374425000000000000000000000000003212462800000000000000000000374412500000000000000000000000003097990800000000000000000000374400000000000000000000000000002912076100000000000000000000374387500000000000000000000000002979672200000000000000000000374375000000000000000000000000002938721600000000000000000000374362500000000000000000000000003089538800000000000000000000374350000000000000000000000000002882757200000000000000000000374337500000000000000000000000003040529700000000000000000000374325000000000000000000000000003141905400000000000000000000374312500000000000000000000000003150757800000000000000000000374300000000000000000000000000003225264400000000000000000000374287500000000000000000000000002966365000000000000000000000374275000000000000000000000000002888457900000000000000000000374262500000000000000000000000003104711100000000000000000000374250000000000000000000000000003038155700000000000000000000374237500000000000000000000000003228370400000000000000000000374225000000000000000000000000003450845100000000000000000000374212500000000000000000000000003254280000000000000000000000374200000000000000000000000000003095877200000000000000000000374187500000000000000000000000003169461000000000000000000000374175000000000000000000000000003034681000000000000000000000374162500000000000000000000000002938618700000000000000000000374150000000000000000000000000002843774000000000000000000000374137500000000000000000000000003049815600000000000000000000374125000000000000000000000000003099011700000000000000000000374112500000000000000000000000002900707500000000000000000000374100000000000000000000000000003084973600000000000000000000374087500000000000000000000000003215295300000000000000000000374075000000000000000000000000003150959100000000000000000000374062500000000000000000000000003109580500000000000000000000374050000000000000000000000000002951303900000000000000000000374037500000000000000000000000003155062800000000000000000000374025000000000000000000000000002972735100000000000000000000374012500000000000000000000000002856752800000000000000000000374000000000000000000000000000003006602300000000000000000000373987500000000000000000000000002986723000000000000000000000373975000000000000000000000000003102297100000000000000000000373962500000000000000000000000003247338300000000000000000000373950000000000000000000000000003168368800000000000000000000373937500000000000000000000000003020443000000000000000000000373925000000000000000000000000002908829800000000000000000000373912500000000000000000000000002924174900000000000000000000373900000000000000000000000000003156425300000000000000000000373887500000000000000000000000002986537700000000000000000000373875000000000000000000000000002827030600000000000000000000373862500000000000000000000000002987411500000000000000000000373850000000000000000000000000003131458800000000000000000000373837500000000000000000000000003260272500000000000000000000373825000000000000000000000000003124320000000000000000000000373812500000000000000000000000002935040900000000000000000000373800000000000000000000,
    3074929500000000000000000000375387500000000000000000000000003059779800000000000000000000375375000000000000000000000000003138360500000000000000000000375362500000000000000000000000002777984100000000000000000000375350000000000000000000000000002859011500000000000000000000375337500000000000000000000000003066433200000000000000000000375325000000000000000000000000002845478700000000000000000000375312500000000000000000000000003501262800000000000000000000375300000000000000000000000000003327211600000000000000000000375287500000000000000000000000002901236800000000000000000000375275000000000000000000000000002690360100000000000000000000375262500000000000000000000000002770664600000000000000000000375250000000000000000000000000002921818600000000000000000000375237500000000000000000000000002944382700000000000000000000375225000000000000000000000000003190867500000000000000000000375212500000000000000000000000003035449300000000000000000000375200000000000000000000000000003192647200000000000000000000375187500000000000000000000000003374818700000000000000000000375175000000000000000000000000003024194200000000000000000000375162500000000000000000000000002653030200000000000000000000375150000000000000000000000000002990809200000000000000000000375137500000000000000000000000003178235300000000000000000000375125000000000000000000000000003154801500000000000000000000375112500000000000000000000000002891161800000000000000000000375100000000000000000000000000002790450200000000000000000000375087500000000000000000000000002903228300000000000000000000375075000000000000000000000000003136525300000000000000000000375062500000000000000000000000003138767200000000000000000000375050000000000000000000000000003055355300000000000000000000375037500000000000000000000000003042717800000000000000000000375025000000000000000000000000002923328600000000000000000000375012500000000000000000000000002955636600000000000000000000375000000000000000000000000000003101365200000000000000000000374987500000000000000000000000002808894700000000000000000000374975000000000000000000000000002668982500000000000000000000374962500000000000000000000000003297329000000000000000000000374950000000000000000000000000003366424700000000000000000000374937500000000000000000000000003072568100000000000000000000374925000000000000000000000000003219522900000000000000000000374912500000000000000000000000002918612800000000000000000000374900000000000000000000000000002722054200000000000000000000374887500000000000000000000000002802187100000000000000000000374875000000000000000000000000002816626700000000000000000000374862500000000000000000000000003018999600000000000000000000374850000000000000000000000000003260009700000000000000000000374837500000000000000000000000003038186500000000000000000000374825000000000000000000000000002894381800000000000000000000374812500000000000000000000000002915562400000000000000000000374800000000000000000000000000002960330800000000000000000000374787500000000000000000000000003011929200000000000000000000374775000000000000000000000000003102385100000000000000000000374762500000000000000000000000002967193900000000000000000000374750000000000000000000000000003200484300000000000000000000374737500000000000000000000000003048218700000000000000000000374725000000000000000000000000002704716800000000000000000000374712500000000000000000000000002829829900000000000000000000374700000000000000000000000000003002883600000000000000000000374687500000000000000000000000003026378500000000000000000000374675000000000000000000000000002916057000000000000000000000374662500000000000000000000000002734765500000000000000000000374650000000000000000000000000002757367900000000000000000000374637500000000000000000000000003067546600000000000000000000374625000000000000000000000000003105035300000000000000000000374612500000000000000000000000003229898200000000000000000000374600000000000000000000,
    3317920100000000000000000000376187500000000000000000000000003226992000000000000000000000376175000000000000000000000000003224508100000000000000000000376162500000000000000000000000003157697500000000000000000000376150000000000000000000000000002884781900000000000000000000376137500000000000000000000000003030713700000000000000000000376125000000000000000000000000003006769100000000000000000000376112500000000000000000000000003095020600000000000000000000376100000000000000000000000000002961966600000000000000000000376087500000000000000000000000002927478800000000000000000000376075000000000000000000000000003071499400000000000000000000376062500000000000000000000000003099595500000000000000000000376050000000000000000000000000002820812500000000000000000000376037500000000000000000000000003042539400000000000000000000376025000000000000000000000000003024803700000000000000000000376012500000000000000000000000003051921900000000000000000000376000000000000000000000000000003168257000000000000000000000375987500000000000000000000000003270442500000000000000000000375975000000000000000000000000003293690500000000000000000000375962500000000000000000000000003070487400000000000000000000375950000000000000000000000000002989646900000000000000000000375937500000000000000000000000002882976400000000000000000000375925000000000000000000000000002864887400000000000000000000375912500000000000000000000000003121566100000000000000000000375900000000000000000000000000003001638500000000000000000000375887500000000000000000000000003140151900000000000000000000375875000000000000000000000000003151126100000000000000000000375862500000000000000000000000002971386900000000000000000000375850000000000000000000000000003081072900000000000000000000375837500000000000000000000000003203406800000000000000000000375825000000000000000000000000003215521200000000000000000000375812500000000000000000000000003187801300000000000000000000375800000000000000000000000000003295863200000000000000000000375787500000000000000000000000003238048400000000000000000000375775000000000000000000000000003145454900000000000000000000375762500000000000000000000000002954707600000000000000000000375750000000000000000000000000003061133900000000000000000000375737500000000000000000000000003125229600000000000000000000375725000000000000000000000000003071672000000000000000000000375712500000000000000000000000002984400500000000000000000000375700000000000000000000000000002767737700000000000000000000375687500000000000000000000000003012679000000000000000000000375675000000000000000000000000003226892400000000000000000000375662500000000000000000000000002931744400000000000000000000375650000000000000000000000000003134480900000000000000000000375637500000000000000000000000003237342600000000000000000000375625000000000000000000000000003067314000000000000000000000375612500000000000000000000000002851112300000000000000000000375600000000000000000000000000003015993900000000000000000000375587500000000000000000000000003368209400000000000000000000375575000000000000000000000000003168352900000000000000000000375562500000000000000000000000003200921800000000000000000000375550000000000000000000000000003066683300000000000000000000375537500000000000000000000000002864295800000000000000000000375525000000000000000000000000002785124100000000000000000000375512500000000000000000000000002881367800000000000000000000375500000000000000000000000000003142659900000000000000000000375487500000000000000000000000003063266100000000000000000000375475000000000000000000000000002825606400000000000000000000375462500000000000000000000000002815248700000000000000000000375450000000000000000000000000002740575200000000000000000000375437500000000000000000000000003019500400000000000000000000375425000000000000000000000000002982326400000000000000000000375412500000000000000000000000003036640700000000000000000000375400000000000000000000,
    3008672300000000000000000000376987500000000000000000000000003123267000000000000000000000376975000000000000000000000000003103572100000000000000000000376962500000000000000000000000002947025200000000000000000000376950000000000000000000000000003983787700000000000000000000376937500000000000000000000000006333748600000000000000000000376925000000000000000000000000004310157700000000000000000000376912500000000000000000000000003007205800000000000000000000376900000000000000000000000000003167579300000000000000000000376887500000000000000000000000003124254000000000000000000000376875000000000000000000000000003194069800000000000000000000376862500000000000000000000000003304229300000000000000000000376850000000000000000000000000003298459600000000000000000000376837500000000000000000000000003037072600000000000000000000376825000000000000000000000000003072278100000000000000000000376812500000000000000000000000003084589800000000000000000000376800000000000000000000000000003082849500000000000000000000376787500000000000000000000000003009573000000000000000000000376775000000000000000000000000003010015200000000000000000000376762500000000000000000000000003115062000000000000000000000376750000000000000000000000000002851887300000000000000000000376737500000000000000000000000002894833900000000000000000000376725000000000000000000000000003169980600000000000000000000376712500000000000000000000000003151894500000000000000000000376700000000000000000000000000003082122300000000000000000000376687500000000000000000000000002876286500000000000000000000376675000000000000000000000000002978895500000000000000000000376662500000000000000000000000003073302000000000000000000000376650000000000000000000000000002864080800000000000000000000376637500000000000000000000000002918658700000000000000000000376625000000000000000000000000002957094300000000000000000000376612500000000000000000000000002707701700000000000000000000376600000000000000000000000000002700183900000000000000000000376587500000000000000000000000003065650000000000000000000000376575000000000000000000000000003403410800000000000000000000376562500000000000000000000000003244658400000000000000000000376550000000000000000000000000003190478200000000000000000000376537500000000000000000000000003068010900000000000000000000376525000000000000000000000000002890333600000000000000000000376512500000000000000000000000002831943000000000000000000000376500000000000000000000000000002894982700000000000000000000376487500000000000000000000000002807476500000000000000000000376475000000000000000000000000002805487800000000000000000000376462500000000000000000000000003135225600000000000000000000376450000000000000000000000000003163386400000000000000000000376437500000000000000000000000002929722500000000000000000000376425000000000000000000000000002824246400000000000000000000376412500000000000000000000000003110438600000000000000000000376400000000000000000000000000003123119900000000000000000000376387500000000000000000000000003244697400000000000000000000376375000000000000000000000000003045780400000000000000000000376362500000000000000000000000002798941200000000000000000000376350000000000000000000000000003135372000000000000000000000376337500000000000000000000000003085790500000000000000000000376325000000000000000000000000003115829000000000000000000000376312500000000000000000000000003089621600000000000000000000376300000000000000000000000000002880180800000000000000000000376287500000000000000000000000002924952700000000000000000000376275000000000000000000000000003018743100000000000000000000376262500000000000000000000000003155591700000000000000000000376250000000000000000000000000003168240900000000000000000000376237500000000000000000000000003268040000000000000000000000376225000000000000000000000000003143926900000000000000000000376212500000000000000000000000003224524700000000000000000000376200000000000000000000,
    3002730700000000000000000000377787500000000000000000000000003281978700000000000000000000377775000000000000000000000000003297881400000000000000000000377762500000000000000000000000003088913800000000000000000000377750000000000000000000000000003213824400000000000000000000377737500000000000000000000000003340743600000000000000000000377725000000000000000000000000003078983200000000000000000000377712500000000000000000000000002874170200000000000000000000377700000000000000000000000000003289399900000000000000000000377687500000000000000000000000003173948100000000000000000000377675000000000000000000000000003140585600000000000000000000377662500000000000000000000000003144519300000000000000000000377650000000000000000000000000003321453000000000000000000000377637500000000000000000000000003117677000000000000000000000377625000000000000000000000000003331333900000000000000000000377612500000000000000000000000002991263700000000000000000000377600000000000000000000000000002820478400000000000000000000377587500000000000000000000000002996021300000000000000000000377575000000000000000000000000003377158500000000000000000000377562500000000000000000000000003384649700000000000000000000377550000000000000000000000000003065588100000000000000000000377537500000000000000000000000003192746600000000000000000000377525000000000000000000000000003111485100000000000000000000377512500000000000000000000000003020915900000000000000000000377500000000000000000000000000003095306700000000000000000000377487500000000000000000000000003181871200000000000000000000377475000000000000000000000000003344483100000000000000000000377462500000000000000000000000003295649100000000000000000000377450000000000000000000000000003165820100000000000000000000377437500000000000000000000000003107476800000000000000000000377425000000000000000000000000003116389100000000000000000000377412500000000000000000000000003084402300000000000000000000377400000000000000000000000000002754773800000000000000000000377387500000000000000000000000002727169800000000000000000000377375000000000000000000000000002812714000000000000000000000377362500000000000000000000000002937550600000000000000000000377350000000000000000000000000002971636000000000000000000000377337500000000000000000000000003237785900000000000000000000377325000000000000000000000000003199315300000000000000000000377312500000000000000000000000002866516300000000000000000000377300000000000000000000000000003160415200000000000000000000377287500000000000000000000000003236357800000000000000000000377275000000000000000000000000003084756800000000000000000000377262500000000000000000000000002982701000000000000000000000377250000000000000000000000000003232724200000000000000000000377237500000000000000000000000003231777800000000000000000000377225000000000000000000000000003098083300000000000000000000377212500000000000000000000000003162916200000000000000000000377200000000000000000000000000002956496600000000000000000000377187500000000000000000000000002841326300000000000000000000377175000000000000000000000000003178622300000000000000000000377162500000000000000000000000002940241100000000000000000000377150000000000000000000000000002891511800000000000000000000377137500000000000000000000000002856929700000000000000000000377125000000000000000000000000003046182000000000000000000000377112500000000000000000000000003104425900000000000000000000377100000000000000000000000000003249616600000000000000000000377087500000000000000000000000003249210500000000000000000000377075000000000000000000000000003127461300000000000000000000377062500000000000000000000000003123363500000000000000000000377050000000000000000000000000002919451400000000000000000000377037500000000000000000000000003064322800000000000000000000377025000000000000000000000000003222157800000000000000000000377012500000000000000000000000003144686800000000000000000000377000000000000000000000,
    3230630800000000000000000000378587500000000000000000000000003414648200000000000000000000378575000000000000000000000000003455667500000000000000000000378562500000000000000000000000003455838800000000000000000000378550000000000000000000000000003025056500000000000000000000378537500000000000000000000000003045511300000000000000000000378525000000000000000000000000002945328700000000000000000000378512500000000000000000000000003137220900000000000000000000378500000000000000000000000000003383916900000000000000000000378487500000000000000000000000003523606000000000000000000000378475000000000000000000000000003469227600000000000000000000378462500000000000000000000000002959948300000000000000000000378450000000000000000000000000002743078600000000000000000000378437500000000000000000000000002791539600000000000000000000378425000000000000000000000000002858604900000000000000000000378412500000000000000000000000003157150100000000000000000000378400000000000000000000000000002959825600000000000000000000378387500000000000000000000000002927241800000000000000000000378375000000000000000000000000002955102100000000000000000000378362500000000000000000000000003198253000000000000000000000378350000000000000000000000000003232773100000000000000000000378337500000000000000000000000003042663100000000000000000000378325000000000000000000000000003063921500000000000000000000378312500000000000000000000000003233322400000000000000000000378300000000000000000000000000003192127100000000000000000000378287500000000000000000000000003054960300000000000000000000378275000000000000000000000000002908890900000000000000000000378262500000000000000000000000003051288700000000000000000000378250000000000000000000000000003131687200000000000000000000378237500000000000000000000000003289752400000000000000000000378225000000000000000000000000003224204600000000000000000000378212500000000000000000000000003159421100000000000000000000378200000000000000000000000000002963884100000000000000000000378187500000000000000000000000003083210100000000000000000000378175000000000000000000000000003121460200000000000000000000378162500000000000000000000000003075658900000000000000000000378150000000000000000000000000002972547300000000000000000000378137500000000000000000000000002717721400000000000000000000378125000000000000000000000000002949786400000000000000000000378112500000000000000000000000003188166400000000000000000000378100000000000000000000000000003059272500000000000000000000378087500000000000000000000000002916409100000000000000000000378075000000000000000000000000002995699400000000000000000000378062500000000000000000000000002897426100000000000000000000378050000000000000000000000000002860124800000000000000000000378037500000000000000000000000002946303800000000000000000000378025000000000000000000000000003240038400000000000000000000378012500000000000000000000000003381871400000000000000000000378000000000000000000000000000003153228600000000000000000000377987500000000000000000000000003117380500000000000000000000377975000000000000000000000000002999109800000000000000000000377962500000000000000000000000002985077900000000000000000000377950000000000000000000000000003056329700000000000000000000377937500000000000000000000000003198772600000000000000000000377925000000000000000000000000003208540700000000000000000000377912500000000000000000000000003372509500000000000000000000377900000000000000000000000000003370201100000000000000000000377887500000000000000000000000003071950400000000000000000000377875000000000000000000000000002976672100000000000000000000377862500000000000000000000000002988374300000000000000000000377850000000000000000000000000002918764000000000000000000000377837500000000000000000000000003110066800000000000000000000377825000000000000000000000000003093264800000000000000000000377812500000000000000000000000002737813300000000000000000000377800000000000000000000,
    3317584400000000000000000000379387500000000000000000000000003412761600000000000000000000379375000000000000000000000000003192557900000000000000000000379362500000000000000000000000002977176400000000000000000000379350000000000000000000000000003110513400000000000000000000379337500000000000000000000000003097443500000000000000000000379325000000000000000000000000003087718000000000000000000000379312500000000000000000000000003378167600000000000000000000379300000000000000000000000000003052794600000000000000000000379287500000000000000000000000004507524000000000000000000000379275000000000000000000000000004987189900000000000000000000379262500000000000000000000000003639624900000000000000000000379250000000000000000000000000003650745300000000000000000000379237500000000000000000000000003653587100000000000000000000379225000000000000000000000000005596421600000000000000000000379212500000000000000000000000006699998300000000000000000000379200000000000000000000000000003943989000000000000000000000379187500000000000000000000000004074202100000000000000000000379175000000000000000000000000003377824800000000000000000000379162500000000000000000000000003331330500000000000000000000379150000000000000000000000000003405284700000000000000000000379137500000000000000000000000003666245500000000000000000000379125000000000000000000000000003452729100000000000000000000379112500000000000000000000000003166992800000000000000000000379100000000000000000000000000003272313800000000000000000000379087500000000000000000000000003331227400000000000000000000379075000000000000000000000000003074071400000000000000000000379062500000000000000000000000003379924200000000000000000000379050000000000000000000000000003457414500000000000000000000379037500000000000000000000000003217080200000000000000000000379025000000000000000000000000003446054000000000000000000000379012500000000000000000000000002921153400000000000000000000379000000000000000000000000000002978133400000000000000000000378987500000000000000000000000003129056000000000000000000000378975000000000000000000000000003278816100000000000000000000378962500000000000000000000000003243361300000000000000000000378950000000000000000000000000003222425000000000000000000000378937500000000000000000000000003326161800000000000000000000378925000000000000000000000000003183393000000000000000000000378912500000000000000000000000003113411200000000000000000000378900000000000000000000000000003194113200000000000000000000378887500000000000000000000000003237953800000000000000000000378875000000000000000000000000003184281300000000000000000000378862500000000000000000000000003274885000000000000000000000378850000000000000000000000000003341182900000000000000000000378837500000000000000000000000003394513700000000000000000000378825000000000000000000000000003470368100000000000000000000378812500000000000000000000000003228507300000000000000000000378800000000000000000000000000003161031000000000000000000000378787500000000000000000000000003224587200000000000000000000378775000000000000000000000000003208973600000000000000000000378762500000000000000000000000003381803300000000000000000000378750000000000000000000000000003316766900000000000000000000378737500000000000000000000000003131948700000000000000000000378725000000000000000000000000003172540600000000000000000000378712500000000000000000000000003162816900000000000000000000378700000000000000000000000000003429906700000000000000000000378687500000000000000000000000003330972000000000000000000000378675000000000000000000000000003257960000000000000000000000378662500000000000000000000000003127794200000000000000000000378650000000000000000000000000003183491100000000000000000000378637500000000000000000000000003187844200000000000000000000378625000000000000000000000000003074885900000000000000000000378612500000000000000000000000003135332000000000000000000000378600000000000000000000,
    3194874000000000000000000000380187500000000000000000000000003319531300000000000000000000380175000000000000000000000000003199403200000000000000000000380162500000000000000000000000003162427000000000000000000000380150000000000000000000000000003064973100000000000000000000380137500000000000000000000000003047877200000000000000000000380125000000000000000000000000003153427300000000000000000000380112500000000000000000000000003110668400000000000000000000380100000000000000000000000000002912774100000000000000000000380087500000000000000000000000003272660700000000000000000000380075000000000000000000000000003277652000000000000000000000380062500000000000000000000000003212211200000000000000000000380050000000000000000000000000003245203100000000000000000000380037500000000000000000000000003215728500000000000000000000380025000000000000000000000000003083579400000000000000000000380012500000000000000000000000002997358300000000000000000000380000000000000000000000000000002954695400000000000000000000379987500000000000000000000000002875938400000000000000000000379975000000000000000000000000002957549500000000000000000000379962500000000000000000000000003240914300000000000000000000379950000000000000000000000000003217522900000000000000000000379937500000000000000000000000003138804200000000000000000000379925000000000000000000000000003128195200000000000000000000379912500000000000000000000000003162818200000000000000000000379900000000000000000000000000002997078500000000000000000000379887500000000000000000000000003177500900000000000000000000379875000000000000000000000000003124020600000000000000000000379862500000000000000000000000003311944000000000000000000000379850000000000000000000000000003433070500000000000000000000379837500000000000000000000000003441949700000000000000000000379825000000000000000000000000003340995600000000000000000000379812500000000000000000000000002970151500000000000000000000379800000000000000000000000000003049339100000000000000000000379787500000000000000000000000003257665600000000000000000000379775000000000000000000000000003112117500000000000000000000379762500000000000000000000000003145826800000000000000000000379750000000000000000000000000003129760200000000000000000000379737500000000000000000000000004739784600000000000000000000379725000000000000000000000000012125754000000000000000000000379712500000000000000000000000009169918900000000000000000000379700000000000000000000000000003260731900000000000000000000379687500000000000000000000000003066542500000000000000000000379675000000000000000000000000002956256400000000000000000000379662500000000000000000000000002898231000000000000000000000379650000000000000000000000000002989633700000000000000000000379637500000000000000000000000003169545000000000000000000000379625000000000000000000000000003142060100000000000000000000379612500000000000000000000000003000114700000000000000000000379600000000000000000000000000003139651600000000000000000000379587500000000000000000000000003145268500000000000000000000379575000000000000000000000000002907182000000000000000000000379562500000000000000000000000002918345800000000000000000000379550000000000000000000000000003032161900000000000000000000379537500000000000000000000000003024432000000000000000000000379525000000000000000000000000003055246200000000000000000000379512500000000000000000000000002961758000000000000000000000379500000000000000000000000000003166891800000000000000000000379487500000000000000000000000003281742700000000000000000000379475000000000000000000000000003247206600000000000000000000379462500000000000000000000000003184616800000000000000000000379450000000000000000000000000003049585800000000000000000000379437500000000000000000000000003156413900000000000000000000379425000000000000000000000000003168442700000000000000000000379412500000000000000000000000003198399800000000000000000000379400000000000000000000,
    3038955700000000000000000000380987500000000000000000000000002877459800000000000000000000380975000000000000000000000000002934651300000000000000000000380962500000000000000000000000003195833900000000000000000000380950000000000000000000000000003151919500000000000000000000380937500000000000000000000000003070762600000000000000000000380925000000000000000000000000002945308600000000000000000000380912500000000000000000000000003201074300000000000000000000380900000000000000000000000000003243078700000000000000000000380887500000000000000000000000003133019100000000000000000000380875000000000000000000000000003338562800000000000000000000380862500000000000000000000000003277129400000000000000000000380850000000000000000000000000003033649900000000000000000000380837500000000000000000000000002960684800000000000000000000380825000000000000000000000000002837148900000000000000000000380812500000000000000000000000002711178900000000000000000000380800000000000000000000000000002798452800000000000000000000380787500000000000000000000000002765102600000000000000000000380775000000000000000000000000002845243200000000000000000000380762500000000000000000000000002920029700000000000000000000380750000000000000000000000000002661938700000000000000000000380737500000000000000000000000003021828600000000000000000000380725000000000000000000000000003202714300000000000000000000380712500000000000000000000000003077251400000000000000000000380700000000000000000000000000003074355200000000000000000000380687500000000000000000000000003122320700000000000000000000380675000000000000000000000000003626333700000000000000000000380662500000000000000000000000003221642600000000000000000000380650000000000000000000000000002966484000000000000000000000380637500000000000000000000000002920008600000000000000000000380625000000000000000000000000003196387100000000000000000000380612500000000000000000000000003423005600000000000000000000380600000000000000000000000000003215159300000000000000000000380587500000000000000000000000003172398700000000000000000000380575000000000000000000000000003387637600000000000000000000380562500000000000000000000000003277144900000000000000000000380550000000000000000000000000004845603900000000000000000000380537500000000000000000000000007109608000000000000000000000380525000000000000000000000000006347071000000000000000000000380512500000000000000000000000003407616600000000000000000000380500000000000000000000000000003293037400000000000000000000380487500000000000000000000000003127530400000000000000000000380475000000000000000000000000003236096700000000000000000000380462500000000000000000000000003087623600000000000000000000380450000000000000000000000000002844403900000000000000000000380437500000000000000000000000002981424200000000000000000000380425000000000000000000000000002855606600000000000000000000380412500000000000000000000000003232989300000000000000000000380400000000000000000000000000003247848400000000000000000000380387500000000000000000000000002918935400000000000000000000380375000000000000000000000000003107965800000000000000000000380362500000000000000000000000003228241000000000000000000000380350000000000000000000000000003165892700000000000000000000380337500000000000000000000000003307440700000000000000000000380325000000000000000000000000003226505600000000000000000000380312500000000000000000000000003021471900000000000000000000380300000000000000000000000000003150342100000000000000000000380287500000000000000000000000003298048100000000000000000000380275000000000000000000000000003481561200000000000000000000380262500000000000000000000000003543846200000000000000000000380250000000000000000000000000003406844600000000000000000000380237500000000000000000000000003280845200000000000000000000380225000000000000000000000000003070513300000000000000000000380212500000000000000000000000002915404800000000000000000000380200000000000000000000,
    3029059800000000000000000000381787500000000000000000000000003128291500000000000000000000381775000000000000000000000000003080317300000000000000000000381762500000000000000000000000003149465500000000000000000000381750000000000000000000000000003134816900000000000000000000381737500000000000000000000000002973092300000000000000000000381725000000000000000000000000003193655000000000000000000000381712500000000000000000000000003058003000000000000000000000381700000000000000000000000000003013616800000000000000000000381687500000000000000000000000002992424900000000000000000000381675000000000000000000000000003160384200000000000000000000381662500000000000000000000000003385797700000000000000000000381650000000000000000000000000003291228200000000000000000000381637500000000000000000000000003073193300000000000000000000381625000000000000000000000000003250887500000000000000000000381612500000000000000000000000006801604400000000000000000000381600000000000000000000000000010886336000000000000000000000381587500000000000000000000000005484553200000000000000000000381575000000000000000000000000002959980600000000000000000000381562500000000000000000000000003158901000000000000000000000381550000000000000000000000000003049444100000000000000000000381537500000000000000000000000003022892900000000000000000000381525000000000000000000000000003151616900000000000000000000381512500000000000000000000000003133510200000000000000000000381500000000000000000000000000003222894500000000000000000000381487500000000000000000000000003284924900000000000000000000381475000000000000000000000000003232996000000000000000000000381462500000000000000000000000002976070100000000000000000000381450000000000000000000000000002985401400000000000000000000381437500000000000000000000000003067895500000000000000000000381425000000000000000000000000003194314100000000000000000000381412500000000000000000000000003144158300000000000000000000381400000000000000000000000000003005264100000000000000000000381387500000000000000000000000002887826700000000000000000000381375000000000000000000000000003187715000000000000000000000381362500000000000000000000000003467298300000000000000000000381350000000000000000000000000003143845100000000000000000000381337500000000000000000000000002929421000000000000000000000381325000000000000000000000000003186352200000000000000000000381312500000000000000000000000003194740000000000000000000000381300000000000000000000000000003452015300000000000000000000381287500000000000000000000000003328385200000000000000000000381275000000000000000000000000003562080100000000000000000000381262500000000000000000000000006036004200000000000000000000381250000000000000000000000000005646512200000000000000000000381237500000000000000000000000003054932100000000000000000000381225000000000000000000000000003065218800000000000000000000381212500000000000000000000000003230576400000000000000000000381200000000000000000000000000003305073400000000000000000000381187500000000000000000000000003112385400000000000000000000381175000000000000000000000000003163203000000000000000000000381162500000000000000000000000003099981900000000000000000000381150000000000000000000000000003079453100000000000000000000381137500000000000000000000000003040888100000000000000000000381125000000000000000000000000002992848000000000000000000000381112500000000000000000000000002977266600000000000000000000381100000000000000000000000000003003532000000000000000000000381087500000000000000000000000003153642400000000000000000000381075000000000000000000000000002991386400000000000000000000381062500000000000000000000000002950748100000000000000000000381050000000000000000000000000002956429300000000000000000000381037500000000000000000000000003011834700000000000000000000381025000000000000000000000000003391753200000000000000000000381012500000000000000000000000003194021300000000000000000000381000000000000000000000,
    3281039300000000000000000000382587500000000000000000000000003211575800000000000000000000382575000000000000000000000000003206275900000000000000000000382562500000000000000000000000002986056300000000000000000000382550000000000000000000000000003191187600000000000000000000382537500000000000000000000000003293495800000000000000000000382525000000000000000000000000002934512900000000000000000000382512500000000000000000000000003009367400000000000000000000382500000000000000000000000000003063892400000000000000000000382487500000000000000000000000002882013900000000000000000000382475000000000000000000000000003156540300000000000000000000382462500000000000000000000000003068459600000000000000000000382450000000000000000000000000002869807100000000000000000000382437500000000000000000000000003178410200000000000000000000382425000000000000000000000000003004137800000000000000000000382412500000000000000000000000002733143000000000000000000000382400000000000000000000000000002931230500000000000000000000382387500000000000000000000000003241679300000000000000000000382375000000000000000000000000003049218300000000000000000000382362500000000000000000000000003244902400000000000000000000382350000000000000000000000000003314240500000000000000000000382337500000000000000000000000003223779700000000000000000000382325000000000000000000000000003099373600000000000000000000382312500000000000000000000000003128173000000000000000000000382300000000000000000000000000003002006800000000000000000000382287500000000000000000000000002983955700000000000000000000382275000000000000000000000000002890843800000000000000000000382262500000000000000000000000003020287200000000000000000000382250000000000000000000000000003023509200000000000000000000382237500000000000000000000000002981583700000000000000000000382225000000000000000000000000003149126300000000000000000000382212500000000000000000000000003151654200000000000000000000382200000000000000000000000000003031992600000000000000000000382187500000000000000000000000003010735300000000000000000000382175000000000000000000000000002728147200000000000000000000382162500000000000000000000000002664052000000000000000000000382150000000000000000000000000002904515200000000000000000000382137500000000000000000000000003361368900000000000000000000382125000000000000000000000000003143254100000000000000000000382112500000000000000000000000002965249600000000000000000000382100000000000000000000000000003053358700000000000000000000382087500000000000000000000000002894778300000000000000000000382075000000000000000000000000002841727200000000000000000000382062500000000000000000000000003046023500000000000000000000382050000000000000000000000000003142592600000000000000000000382037500000000000000000000000002942615300000000000000000000382025000000000000000000000000002848805800000000000000000000382012500000000000000000000000003002337300000000000000000000382000000000000000000000000000003136275000000000000000000000381987500000000000000000000000002972345600000000000000000000381975000000000000000000000000002961143300000000000000000000381962500000000000000000000000003234190200000000000000000000381950000000000000000000000000003245085900000000000000000000381937500000000000000000000000003284248300000000000000000000381925000000000000000000000000003283749200000000000000000000381912500000000000000000000000003093019700000000000000000000381900000000000000000000000000003089524900000000000000000000381887500000000000000000000000003062112700000000000000000000381875000000000000000000000000003043878200000000000000000000381862500000000000000000000000002922528900000000000000000000381850000000000000000000000000003283089000000000000000000000381837500000000000000000000000003542982100000000000000000000381825000000000000000000000000003207882000000000000000000000381812500000000000000000000000003005468800000000000000000000381800000000000000000000,
    3775240300000000000000000000383387500000000000000000000000003514814600000000000000000000383375000000000000000000000000003300428400000000000000000000383362500000000000000000000000003093806600000000000000000000383350000000000000000000000000003289218700000000000000000000383337500000000000000000000000003009572300000000000000000000383325000000000000000000000000003070130400000000000000000000383312500000000000000000000000003217964200000000000000000000383300000000000000000000000000002973590500000000000000000000383287500000000000000000000000003167803000000000000000000000383275000000000000000000000000003121669400000000000000000000383262500000000000000000000000002762690000000000000000000000383250000000000000000000000000002942142200000000000000000000383237500000000000000000000000003118920800000000000000000000383225000000000000000000000000003280133900000000000000000000383212500000000000000000000000003040293100000000000000000000383200000000000000000000000000003133528500000000000000000000383187500000000000000000000000003341239900000000000000000000383175000000000000000000000000003372821000000000000000000000383162500000000000000000000000003179090200000000000000000000383150000000000000000000000000003061901600000000000000000000383137500000000000000000000000003122823800000000000000000000383125000000000000000000000000003081814500000000000000000000383112500000000000000000000000002989042600000000000000000000383100000000000000000000000000003011496400000000000000000000383087500000000000000000000000003146054500000000000000000000383075000000000000000000000000003013194800000000000000000000383062500000000000000000000000003096180500000000000000000000383050000000000000000000000000003165149800000000000000000000383037500000000000000000000000005967122800000000000000000000383025000000000000000000000000005845384600000000000000000000383012500000000000000000000000003150837200000000000000000000383000000000000000000000000000003151153500000000000000000000382987500000000000000000000000003403513900000000000000000000382975000000000000000000000000003329911000000000000000000000382962500000000000000000000000003269453300000000000000000000382950000000000000000000000000003413463900000000000000000000382937500000000000000000000000003643719800000000000000000000382925000000000000000000000000006754778900000000000000000000382912500000000000000000000000006031630600000000000000000000382900000000000000000000000000003910184600000000000000000000382887500000000000000000000000003555316300000000000000000000382875000000000000000000000000002871429700000000000000000000382862500000000000000000000000002983581100000000000000000000382850000000000000000000000000003307358800000000000000000000382837500000000000000000000000003386907300000000000000000000382825000000000000000000000000003251223500000000000000000000382812500000000000000000000000003361849400000000000000000000382800000000000000000000000000003614898600000000000000000000382787500000000000000000000000003346218300000000000000000000382775000000000000000000000000003026363600000000000000000000382762500000000000000000000000003190690900000000000000000000382750000000000000000000000000005566930000000000000000000000382737500000000000000000000000007933628200000000000000000000382725000000000000000000000000004056796200000000000000000000382712500000000000000000000000002856529500000000000000000000382700000000000000000000000000002959328000000000000000000000382687500000000000000000000000003134426600000000000000000000382675000000000000000000000000003173781400000000000000000000382662500000000000000000000000003102156600000000000000000000382650000000000000000000000000003128426500000000000000000000382637500000000000000000000000003361917000000000000000000000382625000000000000000000000000003291605900000000000000000000382612500000000000000000000000003177323100000000000000000000382600000000000000000000,
    3223015100000000000000000000384187500000000000000000000000003165773400000000000000000000384175000000000000000000000000002992744600000000000000000000384162500000000000000000000000003075652000000000000000000000384150000000000000000000000000002865631800000000000000000000384137500000000000000000000000003274366800000000000000000000384125000000000000000000000000003612359800000000000000000000384112500000000000000000000000003405167200000000000000000000384100000000000000000000000000003174668200000000000000000000384087500000000000000000000000002958152400000000000000000000384075000000000000000000000000003153075500000000000000000000384062500000000000000000000000003234959600000000000000000000384050000000000000000000000000003165070100000000000000000000384037500000000000000000000000003275026000000000000000000000384025000000000000000000000000003186985400000000000000000000384012500000000000000000000000003026594800000000000000000000384000000000000000000000000000003075706500000000000000000000383987500000000000000000000000003243788100000000000000000000383975000000000000000000000000003200129000000000000000000000383962500000000000000000000000003453247900000000000000000000383950000000000000000000000000004089629100000000000000000000383937500000000000000000000000006021426400000000000000000000383925000000000000000000000000003919951100000000000000000000383912500000000000000000000000002889146900000000000000000000383900000000000000000000000000002917463000000000000000000000383887500000000000000000000000003215851500000000000000000000383875000000000000000000000000003521035100000000000000000000383862500000000000000000000000003439020300000000000000000000383850000000000000000000000000003179817400000000000000000000383837500000000000000000000000003373157800000000000000000000383825000000000000000000000000003489527000000000000000000000383812500000000000000000000000003570933500000000000000000000383800000000000000000000000000003303851900000000000000000000383787500000000000000000000000003269910000000000000000000000383775000000000000000000000000003202593100000000000000000000383762500000000000000000000000003044027900000000000000000000383750000000000000000000000000003175639000000000000000000000383737500000000000000000000000003420019100000000000000000000383725000000000000000000000000003287943900000000000000000000383712500000000000000000000000003132880100000000000000000000383700000000000000000000000000003367556100000000000000000000383687500000000000000000000000003285820500000000000000000000383675000000000000000000000000003223297900000000000000000000383662500000000000000000000000003024554800000000000000000000383650000000000000000000000000002876793500000000000000000000383637500000000000000000000000003051014100000000000000000000383625000000000000000000000000002877482400000000000000000000383612500000000000000000000000003168055000000000000000000000383600000000000000000000000000003333325100000000000000000000383587500000000000000000000000003201230600000000000000000000383575000000000000000000000000003156889400000000000000000000383562500000000000000000000000003046346600000000000000000000383550000000000000000000000000003198382900000000000000000000383537500000000000000000000000003277176400000000000000000000383525000000000000000000000000003248551000000000000000000000383512500000000000000000000000003107414800000000000000000000383500000000000000000000000000003092688400000000000000000000383487500000000000000000000000002989555700000000000000000000383475000000000000000000000000003131964900000000000000000000383462500000000000000000000000003013633000000000000000000000383450000000000000000000000000003050034700000000000000000000383437500000000000000000000000003175228400000000000000000000383425000000000000000000000000003760354100000000000000000000383412500000000000000000000000004410409000000000000000000000383400000000000000000000,
    2664185800000000000000000000384987500000000000000000000000003087356100000000000000000000384975000000000000000000000000003165486600000000000000000000384962500000000000000000000000003358831200000000000000000000384950000000000000000000000000003136269100000000000000000000384937500000000000000000000000002931824200000000000000000000384925000000000000000000000000003135169000000000000000000000384912500000000000000000000000003046127900000000000000000000384900000000000000000000000000002945299600000000000000000000384887500000000000000000000000003231582900000000000000000000384875000000000000000000000000003264970800000000000000000000384862500000000000000000000000003194707400000000000000000000384850000000000000000000000000003314490500000000000000000000384837500000000000000000000000003183792600000000000000000000384825000000000000000000000000003006580600000000000000000000384812500000000000000000000000003118870500000000000000000000384800000000000000000000000000003001026200000000000000000000384787500000000000000000000000002954280700000000000000000000384775000000000000000000000000003002952500000000000000000000384762500000000000000000000000003051642400000000000000000000384750000000000000000000000000003143811600000000000000000000384737500000000000000000000000003185254200000000000000000000384725000000000000000000000000003199512200000000000000000000384712500000000000000000000000003350122600000000000000000000384700000000000000000000000000003327975300000000000000000000384687500000000000000000000000003100837700000000000000000000384675000000000000000000000000003155914100000000000000000000384662500000000000000000000000003245805200000000000000000000384650000000000000000000000000003133010700000000000000000000384637500000000000000000000000003239033100000000000000000000384625000000000000000000000000003236413300000000000000000000384612500000000000000000000000003249118100000000000000000000384600000000000000000000000000003057007100000000000000000000384587500000000000000000000000002967916500000000000000000000384575000000000000000000000000002988016200000000000000000000384562500000000000000000000000002932954900000000000000000000384550000000000000000000000000002857653300000000000000000000384537500000000000000000000000003243324000000000000000000000384525000000000000000000000000002948176100000000000000000000384512500000000000000000000000002939400700000000000000000000384500000000000000000000000000003151492200000000000000000000384487500000000000000000000000003014160200000000000000000000384475000000000000000000000000003049550500000000000000000000384462500000000000000000000000003050502900000000000000000000384450000000000000000000000000003075366800000000000000000000384437500000000000000000000000003155346100000000000000000000384425000000000000000000000000002940098500000000000000000000384412500000000000000000000000002783469400000000000000000000384400000000000000000000000000002990871500000000000000000000384387500000000000000000000000003141284500000000000000000000384375000000000000000000000000003192569600000000000000000000384362500000000000000000000000003185558400000000000000000000384350000000000000000000000000003082072200000000000000000000384337500000000000000000000000003374960200000000000000000000384325000000000000000000000000003301557900000000000000000000384312500000000000000000000000003162570800000000000000000000384300000000000000000000000000003227537000000000000000000000384287500000000000000000000000003113046100000000000000000000384275000000000000000000000000003294017100000000000000000000384262500000000000000000000000003203714700000000000000000000384250000000000000000000000000003295344500000000000000000000384237500000000000000000000000003436168700000000000000000000384225000000000000000000000000003246509000000000000000000000384212500000000000000000000000003108886300000000000000000000384200000000000000000000,
    3148220400000000000000000000385787500000000000000000000000003229379800000000000000000000385775000000000000000000000000003207338100000000000000000000385762500000000000000000000000003061064700000000000000000000385750000000000000000000000000002976928700000000000000000000385737500000000000000000000000003281419100000000000000000000385725000000000000000000000000003259332300000000000000000000385712500000000000000000000000003182851200000000000000000000385700000000000000000000000000003264522200000000000000000000385687500000000000000000000000003265796900000000000000000000385675000000000000000000000000003242224400000000000000000000385662500000000000000000000000003335711400000000000000000000385650000000000000000000000000003357698800000000000000000000385637500000000000000000000000003324328900000000000000000000385625000000000000000000000000003306640500000000000000000000385612500000000000000000000000003145118500000000000000000000385600000000000000000000000000003115262100000000000000000000385587500000000000000000000000003114391100000000000000000000385575000000000000000000000000003026902300000000000000000000385562500000000000000000000000003088387800000000000000000000385550000000000000000000000000003269615100000000000000000000385537500000000000000000000000003522359500000000000000000000385525000000000000000000000000003654001600000000000000000000385512500000000000000000000000003547272400000000000000000000385500000000000000000000000000003260291800000000000000000000385487500000000000000000000000003308835900000000000000000000385475000000000000000000000000003356295800000000000000000000385462500000000000000000000000003281417800000000000000000000385450000000000000000000000000003082327800000000000000000000385437500000000000000000000000003067697600000000000000000000385425000000000000000000000000003311916400000000000000000000385412500000000000000000000000007167062300000000000000000000385400000000000000000000000000009125821700000000000000000000385387500000000000000000000000004113457200000000000000000000385375000000000000000000000000003081138300000000000000000000385362500000000000000000000000003159685600000000000000000000385350000000000000000000000000003076645600000000000000000000385337500000000000000000000000002862808400000000000000000000385325000000000000000000000000003104780300000000000000000000385312500000000000000000000000003339509200000000000000000000385300000000000000000000000000003170721700000000000000000000385287500000000000000000000000003161305200000000000000000000385275000000000000000000000000003086488700000000000000000000385262500000000000000000000000002994215200000000000000000000385250000000000000000000000000003167341900000000000000000000385237500000000000000000000000003026613000000000000000000000385225000000000000000000000000003097912400000000000000000000385212500000000000000000000000004249122100000000000000000000385200000000000000000000000000003517968300000000000000000000385187500000000000000000000000003054135800000000000000000000385175000000000000000000000000003070691800000000000000000000385162500000000000000000000000003226270600000000000000000000385150000000000000000000000000003175624100000000000000000000385137500000000000000000000000003128295800000000000000000000385125000000000000000000000000003083931700000000000000000000385112500000000000000000000000003216028700000000000000000000385100000000000000000000000000003073251000000000000000000000385087500000000000000000000000003128426500000000000000000000385075000000000000000000000000003148064900000000000000000000385062500000000000000000000000003036651900000000000000000000385050000000000000000000000000003053262700000000000000000000385037500000000000000000000000003119965800000000000000000000385025000000000000000000000000002968497200000000000000000000385012500000000000000000000000002779585200000000000000000000385000000000000000000000,
    3610566000000000000000000000386587500000000000000000000000003256661600000000000000000000386575000000000000000000000000003176167800000000000000000000386562500000000000000000000000003238886800000000000000000000386550000000000000000000000000003435455400000000000000000000386537500000000000000000000000003191311500000000000000000000386525000000000000000000000000003169166600000000000000000000386512500000000000000000000000003413693300000000000000000000386500000000000000000000000000003188149800000000000000000000386487500000000000000000000000003146989100000000000000000000386475000000000000000000000000002976604700000000000000000000386462500000000000000000000000003074299700000000000000000000386450000000000000000000000000003182717800000000000000000000386437500000000000000000000000003171794900000000000000000000386425000000000000000000000000003090986000000000000000000000386412500000000000000000000000003200491900000000000000000000386400000000000000000000000000003134548800000000000000000000386387500000000000000000000000002934647300000000000000000000386375000000000000000000000000003142758200000000000000000000386362500000000000000000000000003175896600000000000000000000386350000000000000000000000000002992632200000000000000000000386337500000000000000000000000003206202900000000000000000000386325000000000000000000000000003056805800000000000000000000386312500000000000000000000000003151891600000000000000000000386300000000000000000000000000003139685500000000000000000000386287500000000000000000000000003129165300000000000000000000386275000000000000000000000000003203740200000000000000000000386262500000000000000000000000003142168700000000000000000000386250000000000000000000000000003128581500000000000000000000386237500000000000000000000000003024939000000000000000000000386225000000000000000000000000003237100700000000000000000000386212500000000000000000000000003327549300000000000000000000386200000000000000000000000000003158530500000000000000000000386187500000000000000000000000003092042900000000000000000000386175000000000000000000000000002974186100000000000000000000386162500000000000000000000000002898562100000000000000000000386150000000000000000000000000002999670100000000000000000000386137500000000000000000000000003044039200000000000000000000386125000000000000000000000000003125759300000000000000000000386112500000000000000000000000003091894800000000000000000000386100000000000000000000000000003338501200000000000000000000386087500000000000000000000000003232443300000000000000000000386075000000000000000000000000003280534400000000000000000000386062500000000000000000000000003124680700000000000000000000386050000000000000000000000000003087494800000000000000000000386037500000000000000000000000002968994900000000000000000000386025000000000000000000000000003150482100000000000000000000386012500000000000000000000000003330546300000000000000000000386000000000000000000000000000003068145900000000000000000000385987500000000000000000000000003112104100000000000000000000385975000000000000000000000000003001047900000000000000000000385962500000000000000000000000002897546300000000000000000000385950000000000000000000000000003272398900000000000000000000385937500000000000000000000000003242918200000000000000000000385925000000000000000000000000003182447000000000000000000000385912500000000000000000000000003152938600000000000000000000385900000000000000000000000000003289578300000000000000000000385887500000000000000000000000003593048400000000000000000000385875000000000000000000000000006644763100000000000000000000385862500000000000000000000000006134847000000000000000000000385850000000000000000000000000003778420900000000000000000000385837500000000000000000000000003392296300000000000000000000385825000000000000000000000000003045787200000000000000000000385812500000000000000000000000003038908800000000000000000000385800000000000000000000,
    3389241500000000000000000000387387500000000000000000000000003199669400000000000000000000387375000000000000000000000000003052035000000000000000000000387362500000000000000000000000003291827800000000000000000000387350000000000000000000000000003394744500000000000000000000387337500000000000000000000000003203927500000000000000000000387325000000000000000000000000002936103500000000000000000000387312500000000000000000000000003080685900000000000000000000387300000000000000000000000000003222195800000000000000000000387287500000000000000000000000003152354300000000000000000000387275000000000000000000000000002950905500000000000000000000387262500000000000000000000000002994386100000000000000000000387250000000000000000000000000003288552100000000000000000000387237500000000000000000000000003285203200000000000000000000387225000000000000000000000000002973137900000000000000000000387212500000000000000000000000003204004800000000000000000000387200000000000000000000000000003295604000000000000000000000387187500000000000000000000000003326404100000000000000000000387175000000000000000000000000003096674300000000000000000000387162500000000000000000000000003102972800000000000000000000387150000000000000000000000000003025537400000000000000000000387137500000000000000000000000002990125200000000000000000000387125000000000000000000000000003146062600000000000000000000387112500000000000000000000000003338884000000000000000000000387100000000000000000000000000003330490800000000000000000000387087500000000000000000000000003393860100000000000000000000387075000000000000000000000000003152409300000000000000000000387062500000000000000000000000002963063100000000000000000000387050000000000000000000000000003112294700000000000000000000387037500000000000000000000000003149516000000000000000000000387025000000000000000000000000003060159400000000000000000000387012500000000000000000000000003236339700000000000000000000387000000000000000000000000000003006494100000000000000000000386987500000000000000000000000003042115400000000000000000000386975000000000000000000000000003057256300000000000000000000386962500000000000000000000000003147600200000000000000000000386950000000000000000000000000003120619800000000000000000000386937500000000000000000000000002901906000000000000000000000386925000000000000000000000000002860831200000000000000000000386912500000000000000000000000002993068200000000000000000000386900000000000000000000000000003168270600000000000000000000386887500000000000000000000000002874812900000000000000000000386875000000000000000000000000003323539800000000000000000000386862500000000000000000000000003389049500000000000000000000386850000000000000000000000000003295214000000000000000000000386837500000000000000000000000003142780300000000000000000000386825000000000000000000000000003128104000000000000000000000386812500000000000000000000000002909692300000000000000000000386800000000000000000000000000002901344100000000000000000000386787500000000000000000000000002973557600000000000000000000386775000000000000000000000000003212322300000000000000000000386762500000000000000000000000003186257700000000000000000000386750000000000000000000000000003216614000000000000000000000386737500000000000000000000000003037195300000000000000000000386725000000000000000000000000003087556000000000000000000000386712500000000000000000000000003049824800000000000000000000386700000000000000000000000000003151960200000000000000000000386687500000000000000000000000003101650700000000000000000000386675000000000000000000000000003108989000000000000000000000386662500000000000000000000000003138675900000000000000000000386650000000000000000000000000003266152300000000000000000000386637500000000000000000000000003363174400000000000000000000386625000000000000000000000000003216496200000000000000000000386612500000000000000000000000003215436300000000000000000000386600000000000000000000,
    2936175800000000000000000000388187500000000000000000000000002835876100000000000000000000388175000000000000000000000000003156283800000000000000000000388162500000000000000000000000003209267700000000000000000000388150000000000000000000000000003116632600000000000000000000388137500000000000000000000000003055318300000000000000000000388125000000000000000000000000003175241500000000000000000000388112500000000000000000000000003268407200000000000000000000388100000000000000000000000000003125978300000000000000000000388087500000000000000000000000003029980900000000000000000000388075000000000000000000000000003079945700000000000000000000388062500000000000000000000000003289381700000000000000000000388050000000000000000000000000003238127400000000000000000000388037500000000000000000000000003184550000000000000000000000388025000000000000000000000000003036784600000000000000000000388012500000000000000000000000003155089300000000000000000000388000000000000000000000000000003265184700000000000000000000387987500000000000000000000000003212457000000000000000000000387975000000000000000000000000003163947500000000000000000000387962500000000000000000000000003020760700000000000000000000387950000000000000000000000000002872910900000000000000000000387937500000000000000000000000002997449900000000000000000000387925000000000000000000000000003152904000000000000000000000387912500000000000000000000000003149609800000000000000000000387900000000000000000000000000003152276700000000000000000000387887500000000000000000000000003194886500000000000000000000387875000000000000000000000000003182932600000000000000000000387862500000000000000000000000003169852700000000000000000000387850000000000000000000000000002920660500000000000000000000387837500000000000000000000000003119951500000000000000000000387825000000000000000000000000003344827000000000000000000000387812500000000000000000000000003494488200000000000000000000387800000000000000000000000000003243608900000000000000000000387787500000000000000000000000002992826000000000000000000000387775000000000000000000000000003332183000000000000000000000387762500000000000000000000000003300096500000000000000000000387750000000000000000000000000003131746900000000000000000000387737500000000000000000000000003593525700000000000000000000387725000000000000000000000000003464925100000000000000000000387712500000000000000000000000003125223100000000000000000000387700000000000000000000000000003272319700000000000000000000387687500000000000000000000000003396195700000000000000000000387675000000000000000000000000002973652600000000000000000000387662500000000000000000000000003100185200000000000000000000387650000000000000000000000000003088959900000000000000000000387637500000000000000000000000003145324900000000000000000000387625000000000000000000000000003286505700000000000000000000387612500000000000000000000000003234264300000000000000000000387600000000000000000000000000003123854200000000000000000000387587500000000000000000000000003093159500000000000000000000387575000000000000000000000000003001945400000000000000000000387562500000000000000000000000002946717700000000000000000000387550000000000000000000000000003091075100000000000000000000387537500000000000000000000000003387356800000000000000000000387525000000000000000000000000003220682500000000000000000000387512500000000000000000000000003110346800000000000000000000387500000000000000000000000000003114208800000000000000000000387487500000000000000000000000003015511000000000000000000000387475000000000000000000000000002883786700000000000000000000387462500000000000000000000000002872108600000000000000000000387450000000000000000000000000002761657600000000000000000000387437500000000000000000000000002997450300000000000000000000387425000000000000000000000000003154074200000000000000000000387412500000000000000000000000003321292400000000000000000000387400000000000000000000,
    3130146800000000000000000000388987500000000000000000000000003172915300000000000000000000388975000000000000000000000000003077040700000000000000000000388962500000000000000000000000003007083600000000000000000000388950000000000000000000000000003311041600000000000000000000388937500000000000000000000000003274066100000000000000000000388925000000000000000000000000003290275100000000000000000000388912500000000000000000000000003315506200000000000000000000388900000000000000000000000000003342838200000000000000000000388887500000000000000000000000003255659700000000000000000000388875000000000000000000000000003029644800000000000000000000388862500000000000000000000000003036537900000000000000000000388850000000000000000000000000003264269900000000000000000000388837500000000000000000000000002941124400000000000000000000388825000000000000000000000000002968242100000000000000000000388812500000000000000000000000002976769900000000000000000000388800000000000000000000000000003102768500000000000000000000388787500000000000000000000000003039763700000000000000000000388775000000000000000000000000003204850700000000000000000000388762500000000000000000000000003096266900000000000000000000388750000000000000000000000000003001275600000000000000000000388737500000000000000000000000003207106000000000000000000000388725000000000000000000000000003293983200000000000000000000388712500000000000000000000000003059807200000000000000000000388700000000000000000000000000003201904500000000000000000000388687500000000000000000000000003029820200000000000000000000388675000000000000000000000000003276814300000000000000000000388662500000000000000000000000003004172300000000000000000000388650000000000000000000000000002764002500000000000000000000388637500000000000000000000000003092314100000000000000000000388625000000000000000000000000003164369200000000000000000000388612500000000000000000000000003233948400000000000000000000388600000000000000000000000000003073894100000000000000000000388587500000000000000000000000003076313200000000000000000000388575000000000000000000000000003012696300000000000000000000388562500000000000000000000000002964196300000000000000000000388550000000000000000000000000003127173900000000000000000000388537500000000000000000000000003028620500000000000000000000388525000000000000000000000000002937137000000000000000000000388512500000000000000000000000002925973800000000000000000000388500000000000000000000000000002998756000000000000000000000388487500000000000000000000000003091801500000000000000000000388475000000000000000000000000003030176300000000000000000000388462500000000000000000000000003098873700000000000000000000388450000000000000000000000000003093423200000000000000000000388437500000000000000000000000003040988400000000000000000000388425000000000000000000000000003273797600000000000000000000388412500000000000000000000000003091993000000000000000000000388400000000000000000000000000003229553400000000000000000000388387500000000000000000000000003207147600000000000000000000388375000000000000000000000000003017600800000000000000000000388362500000000000000000000000003212314300000000000000000000388350000000000000000000000000003215421900000000000000000000388337500000000000000000000000003177137600000000000000000000388325000000000000000000000000003113648800000000000000000000388312500000000000000000000000002974326900000000000000000000388300000000000000000000000000002832236500000000000000000000388287500000000000000000000000003153132800000000000000000000388275000000000000000000000000003338245100000000000000000000388262500000000000000000000000003204945200000000000000000000388250000000000000000000000000003236337100000000000000000000388237500000000000000000000000003229418900000000000000000000388225000000000000000000000000003168256000000000000000000000388212500000000000000000000000003146069100000000000000000000388200000000000000000000,
    3173067400000000000000000000389787500000000000000000000000003266602100000000000000000000389775000000000000000000000000003233567400000000000000000000389762500000000000000000000000003318583000000000000000000000389750000000000000000000000000003197038000000000000000000000389737500000000000000000000000002969647700000000000000000000389725000000000000000000000000003303151400000000000000000000389712500000000000000000000000003077072100000000000000000000389700000000000000000000000000002850625500000000000000000000389687500000000000000000000000003094159700000000000000000000389675000000000000000000000000003164327800000000000000000000389662500000000000000000000000003013134900000000000000000000389650000000000000000000000000003039133600000000000000000000389637500000000000000000000000003077735700000000000000000000389625000000000000000000000000003221580100000000000000000000389612500000000000000000000000003073834000000000000000000000389600000000000000000000000000002994536100000000000000000000389587500000000000000000000000003181857800000000000000000000389575000000000000000000000000003422485900000000000000000000389562500000000000000000000000003256067500000000000000000000389550000000000000000000000000003052655000000000000000000000389537500000000000000000000000003056111900000000000000000000389525000000000000000000000000003119319400000000000000000000389512500000000000000000000000003146452300000000000000000000389500000000000000000000000000003233224000000000000000000000389487500000000000000000000000003161301900000000000000000000389475000000000000000000000000003445475100000000000000000000389462500000000000000000000000003443800500000000000000000000389450000000000000000000000000003244555900000000000000000000389437500000000000000000000000003157264000000000000000000000389425000000000000000000000000003023234900000000000000000000389412500000000000000000000000003098501200000000000000000000389400000000000000000000000000003294670300000000000000000000389387500000000000000000000000003247866000000000000000000000389375000000000000000000000000003573655300000000000000000000389362500000000000000000000000003370867700000000000000000000389350000000000000000000000000003172175600000000000000000000389337500000000000000000000000003125238100000000000000000000389325000000000000000000000000003089925400000000000000000000389312500000000000000000000000003098395900000000000000000000389300000000000000000000000000003140541100000000000000000000389287500000000000000000000000002985105100000000000000000000389275000000000000000000000000003056742100000000000000000000389262500000000000000000000000003306541500000000000000000000389250000000000000000000000000003520145600000000000000000000389237500000000000000000000000003390911300000000000000000000389225000000000000000000000000003252701300000000000000000000389212500000000000000000000000003147256000000000000000000000389200000000000000000000000000003020328800000000000000000000389187500000000000000000000000003103592400000000000000000000389175000000000000000000000000003249188500000000000000000000389162500000000000000000000000003292637900000000000000000000389150000000000000000000000000003335735000000000000000000000389137500000000000000000000000003419585100000000000000000000389125000000000000000000000000003687867600000000000000000000389112500000000000000000000000003286678300000000000000000000389100000000000000000000000000002966384200000000000000000000389087500000000000000000000000003163420900000000000000000000389075000000000000000000000000003262262500000000000000000000389062500000000000000000000000003131868900000000000000000000389050000000000000000000000000003357967600000000000000000000389037500000000000000000000000003376243200000000000000000000389025000000000000000000000000003025302500000000000000000000389012500000000000000000000000003126188500000000000000000000389000000000000000000000,
    3076402000000000000000000000390587500000000000000000000000003316263700000000000000000000390575000000000000000000000000003217883800000000000000000000390562500000000000000000000000003069084400000000000000000000390550000000000000000000000000003146116100000000000000000000390537500000000000000000000000003390823200000000000000000000390525000000000000000000000000003342523600000000000000000000390512500000000000000000000000003134125200000000000000000000390500000000000000000000000000003196994400000000000000000000390487500000000000000000000000003239520900000000000000000000390475000000000000000000000000003179993100000000000000000000390462500000000000000000000000003250369600000000000000000000390450000000000000000000000000003395750800000000000000000000390437500000000000000000000000003073211700000000000000000000390425000000000000000000000000003027855800000000000000000000390412500000000000000000000000002952721600000000000000000000390400000000000000000000000000003106130500000000000000000000390387500000000000000000000000003138903100000000000000000000390375000000000000000000000000003365530200000000000000000000390362500000000000000000000000003303281500000000000000000000390350000000000000000000000000003269832500000000000000000000390337500000000000000000000000003178758200000000000000000000390325000000000000000000000000003490609100000000000000000000390312500000000000000000000000003538954900000000000000000000390300000000000000000000000000003177598200000000000000000000390287500000000000000000000000003499023600000000000000000000390275000000000000000000000000003478196800000000000000000000390262500000000000000000000000003442538200000000000000000000390250000000000000000000000000003438299100000000000000000000390237500000000000000000000000003420218500000000000000000000390225000000000000000000000000003218821300000000000000000000390212500000000000000000000000003380094900000000000000000000390200000000000000000000000000003417577100000000000000000000390187500000000000000000000000003318043500000000000000000000390175000000000000000000000000003152343200000000000000000000390162500000000000000000000000003102734800000000000000000000390150000000000000000000000000003531372000000000000000000000390137500000000000000000000000003504928500000000000000000000390125000000000000000000000000003248200500000000000000000000390112500000000000000000000000003295161700000000000000000000390100000000000000000000000000003499055100000000000000000000390087500000000000000000000000003482874200000000000000000000390075000000000000000000000000003418434800000000000000000000390062500000000000000000000000003285734500000000000000000000390050000000000000000000000000003264658000000000000000000000390037500000000000000000000000003116667000000000000000000000390025000000000000000000000000003116908300000000000000000000390012500000000000000000000000003372266200000000000000000000390000000000000000000000000000003562514100000000000000000000389987500000000000000000000000003585041500000000000000000000389975000000000000000000000000003405002700000000000000000000389962500000000000000000000000003273102700000000000000000000389950000000000000000000000000003283598800000000000000000000389937500000000000000000000000003185891100000000000000000000389925000000000000000000000000003193219200000000000000000000389912500000000000000000000000003353649400000000000000000000389900000000000000000000000000003197842400000000000000000000389887500000000000000000000000003255340700000000000000000000389875000000000000000000000000003355501400000000000000000000389862500000000000000000000000003245692900000000000000000000389850000000000000000000000000003077062400000000000000000000389837500000000000000000000000003230786300000000000000000000389825000000000000000000000000003257048800000000000000000000389812500000000000000000000000003112522700000000000000000000389800000000000000000000,
    3162449400000000000000000000391387500000000000000000000000003291427000000000000000000000391375000000000000000000000000003219564100000000000000000000391362500000000000000000000000003115735300000000000000000000391350000000000000000000000000003234881900000000000000000000391337500000000000000000000000003033887500000000000000000000391325000000000000000000000000003078239400000000000000000000391312500000000000000000000000003334621900000000000000000000391300000000000000000000000000003276661900000000000000000000391287500000000000000000000000003269720500000000000000000000391275000000000000000000000000003115715700000000000000000000391262500000000000000000000000002996203800000000000000000000391250000000000000000000000000002874368800000000000000000000391237500000000000000000000000002957559600000000000000000000391225000000000000000000000000003063261000000000000000000000391212500000000000000000000000003213632200000000000000000000391200000000000000000000000000003294398800000000000000000000391187500000000000000000000000003339311700000000000000000000391175000000000000000000000000003372121400000000000000000000391162500000000000000000000000003434007100000000000000000000391150000000000000000000000000003222105800000000000000000000391137500000000000000000000000003240843200000000000000000000391125000000000000000000000000003386877800000000000000000000391112500000000000000000000000003229341400000000000000000000391100000000000000000000000000003508540000000000000000000000391087500000000000000000000000003289367500000000000000000000391075000000000000000000000000003193520400000000000000000000391062500000000000000000000000003448069200000000000000000000391050000000000000000000000000003418243000000000000000000000391037500000000000000000000000003116931100000000000000000000391025000000000000000000000000003185573600000000000000000000391012500000000000000000000000003240466500000000000000000000391000000000000000000000000000003346852500000000000000000000390987500000000000000000000000003020758200000000000000000000390975000000000000000000000000003204912700000000000000000000390962500000000000000000000000003385461800000000000000000000390950000000000000000000000000003337846900000000000000000000390937500000000000000000000000003339805600000000000000000000390925000000000000000000000000003333263300000000000000000000390912500000000000000000000000003164571400000000000000000000390900000000000000000000000000002973532400000000000000000000390887500000000000000000000000003042278800000000000000000000390875000000000000000000000000003201845200000000000000000000390862500000000000000000000000003126877600000000000000000000390850000000000000000000000000003250538000000000000000000000390837500000000000000000000000003100334600000000000000000000390825000000000000000000000000003170213900000000000000000000390812500000000000000000000000003285711700000000000000000000390800000000000000000000000000003287058500000000000000000000390787500000000000000000000000003353208000000000000000000000390775000000000000000000000000003242907900000000000000000000390762500000000000000000000000003087905200000000000000000000390750000000000000000000000000003272187000000000000000000000390737500000000000000000000000003416600800000000000000000000390725000000000000000000000000003349741400000000000000000000390712500000000000000000000000003249158600000000000000000000390700000000000000000000000000003055182100000000000000000000390687500000000000000000000000003292250500000000000000000000390675000000000000000000000000003368371600000000000000000000390662500000000000000000000000003385131700000000000000000000390650000000000000000000000000003589464100000000000000000000390637500000000000000000000000003443747000000000000000000000390625000000000000000000000000003321418800000000000000000000390612500000000000000000000000003125230800000000000000000000390600000000000000000000,
    3388428400000000000000000000392187500000000000000000000000003257431700000000000000000000392175000000000000000000000000003528051500000000000000000000392162500000000000000000000000003245353800000000000000000000392150000000000000000000000000002960584500000000000000000000392137500000000000000000000000003001737400000000000000000000392125000000000000000000000000003258242800000000000000000000392112500000000000000000000000003047304000000000000000000000392100000000000000000000000000003055378000000000000000000000392087500000000000000000000000003255897500000000000000000000392075000000000000000000000000003076270300000000000000000000392062500000000000000000000000003471398900000000000000000000392050000000000000000000000000003496480400000000000000000000392037500000000000000000000000003232309900000000000000000000392025000000000000000000000000003057131400000000000000000000392012500000000000000000000000003194364600000000000000000000392000000000000000000000000000003137954500000000000000000000391987500000000000000000000000002974132900000000000000000000391975000000000000000000000000003151883100000000000000000000391962500000000000000000000000003270520500000000000000000000391950000000000000000000000000003369196900000000000000000000391937500000000000000000000000003221815700000000000000000000391925000000000000000000000000003299630300000000000000000000391912500000000000000000000000003322173100000000000000000000391900000000000000000000000000003440101900000000000000000000391887500000000000000000000000003472584200000000000000000000391875000000000000000000000000003310903900000000000000000000391862500000000000000000000000003562181700000000000000000000391850000000000000000000000000003195580000000000000000000000391837500000000000000000000000003144472300000000000000000000391825000000000000000000000000003096020400000000000000000000391812500000000000000000000000003315272500000000000000000000391800000000000000000000000000003313388200000000000000000000391787500000000000000000000000003257450000000000000000000000391775000000000000000000000000003285102700000000000000000000391762500000000000000000000000003451539600000000000000000000391750000000000000000000000000003410622000000000000000000000391737500000000000000000000000003562804800000000000000000000391725000000000000000000000000003469492900000000000000000000391712500000000000000000000000003268248600000000000000000000391700000000000000000000000000003148079400000000000000000000391687500000000000000000000000003285638200000000000000000000391675000000000000000000000000003075660500000000000000000000391662500000000000000000000000003201528400000000000000000000391650000000000000000000000000003044584100000000000000000000391637500000000000000000000000003131757700000000000000000000391625000000000000000000000000003191792600000000000000000000391612500000000000000000000000003335459000000000000000000000391600000000000000000000000000003315377900000000000000000000391587500000000000000000000000003255089200000000000000000000391575000000000000000000000000003148318500000000000000000000391562500000000000000000000000003188912800000000000000000000391550000000000000000000000000003218225300000000000000000000391537500000000000000000000000003298432100000000000000000000391525000000000000000000000000003096572000000000000000000000391512500000000000000000000000002884205400000000000000000000391500000000000000000000000000003592513000000000000000000000391487500000000000000000000000003508619600000000000000000000391475000000000000000000000000003172326200000000000000000000391462500000000000000000000000003198849800000000000000000000391450000000000000000000000000003289246600000000000000000000391437500000000000000000000000003111502800000000000000000000391425000000000000000000000000003159483500000000000000000000391412500000000000000000000000003265156100000000000000000000391400000000000000000000,
    3235834700000000000000000000392987500000000000000000000000003238781600000000000000000000392975000000000000000000000000003344886400000000000000000000392962500000000000000000000000003699013500000000000000000000392950000000000000000000000000003406720500000000000000000000392937500000000000000000000000002942562100000000000000000000392925000000000000000000000000003389210400000000000000000000392912500000000000000000000000003481827600000000000000000000392900000000000000000000000000003054695100000000000000000000392887500000000000000000000000003307877000000000000000000000392875000000000000000000000000003365189000000000000000000000392862500000000000000000000000003174669100000000000000000000392850000000000000000000000000003305008400000000000000000000392837500000000000000000000000003146204100000000000000000000392825000000000000000000000000003022149200000000000000000000392812500000000000000000000000002996305200000000000000000000392800000000000000000000000000003264613000000000000000000000392787500000000000000000000000003304760800000000000000000000392775000000000000000000000000003322420200000000000000000000392762500000000000000000000000003283462500000000000000000000392750000000000000000000000000003105906900000000000000000000392737500000000000000000000000003268250000000000000000000000392725000000000000000000000000003432525000000000000000000000392712500000000000000000000000003329246000000000000000000000392700000000000000000000000000003151144200000000000000000000392687500000000000000000000000002878919000000000000000000000392675000000000000000000000000002969995600000000000000000000392662500000000000000000000000003010389400000000000000000000392650000000000000000000000000003094531200000000000000000000392637500000000000000000000000003237850200000000000000000000392625000000000000000000000000003313445400000000000000000000392612500000000000000000000000003416816200000000000000000000392600000000000000000000000000003238708900000000000000000000392587500000000000000000000000003155734700000000000000000000392575000000000000000000000000003117121700000000000000000000392562500000000000000000000000002801551500000000000000000000392550000000000000000000000000003117218100000000000000000000392537500000000000000000000000003554604200000000000000000000392525000000000000000000000000003610933200000000000000000000392512500000000000000000000000003416514400000000000000000000392500000000000000000000000000003031539700000000000000000000392487500000000000000000000000003058842000000000000000000000392475000000000000000000000000003093809000000000000000000000392462500000000000000000000000003053983800000000000000000000392450000000000000000000000000003244558900000000000000000000392437500000000000000000000000003363344100000000000000000000392425000000000000000000000000003277840000000000000000000000392412500000000000000000000000003399537600000000000000000000392400000000000000000000000000003394427800000000000000000000392387500000000000000000000000003360299600000000000000000000392375000000000000000000000000003305220600000000000000000000392362500000000000000000000000003136344400000000000000000000392350000000000000000000000000003021112300000000000000000000392337500000000000000000000000003186820300000000000000000000392325000000000000000000000000003476637600000000000000000000392312500000000000000000000000003285012100000000000000000000392300000000000000000000000000003275657500000000000000000000392287500000000000000000000000003345973100000000000000000000392275000000000000000000000000003130692300000000000000000000392262500000000000000000000000002940082700000000000000000000392250000000000000000000000000003206214400000000000000000000392237500000000000000000000000003259968000000000000000000000392225000000000000000000000000003135034200000000000000000000392212500000000000000000000000003289626100000000000000000000392200000000000000000000,
    3283789400000000000000000000393787500000000000000000000000003405346600000000000000000000393775000000000000000000000000003454849900000000000000000000393762500000000000000000000000003034652700000000000000000000393750000000000000000000000000003141298600000000000000000000393737500000000000000000000000003288256000000000000000000000393725000000000000000000000000003062472500000000000000000000393712500000000000000000000000003250399000000000000000000000393700000000000000000000000000003013206600000000000000000000393687500000000000000000000000003150694100000000000000000000393675000000000000000000000000003294745300000000000000000000393662500000000000000000000000003216820900000000000000000000393650000000000000000000000000003244419200000000000000000000393637500000000000000000000000003375631400000000000000000000393625000000000000000000000000003364736300000000000000000000393612500000000000000000000000003294860100000000000000000000393600000000000000000000000000003233329100000000000000000000393587500000000000000000000000003182885500000000000000000000393575000000000000000000000000003341681400000000000000000000393562500000000000000000000000003534631900000000000000000000393550000000000000000000000000003337418200000000000000000000393537500000000000000000000000003317477100000000000000000000393525000000000000000000000000003488469600000000000000000000393512500000000000000000000000003355457100000000000000000000393500000000000000000000000000003383010700000000000000000000393487500000000000000000000000003516383100000000000000000000393475000000000000000000000000003426680200000000000000000000393462500000000000000000000000003380059200000000000000000000393450000000000000000000000000003389778700000000000000000000393437500000000000000000000000003249035800000000000000000000393425000000000000000000000000003533774000000000000000000000393412500000000000000000000000003190047700000000000000000000393400000000000000000000000000002937703100000000000000000000393387500000000000000000000000003158638600000000000000000000393375000000000000000000000000003412125700000000000000000000393362500000000000000000000000003475635700000000000000000000393350000000000000000000000000003176585100000000000000000000393337500000000000000000000000003230746000000000000000000000393325000000000000000000000000003227474500000000000000000000393312500000000000000000000000003325757200000000000000000000393300000000000000000000000000003353372200000000000000000000393287500000000000000000000000003441384300000000000000000000393275000000000000000000000000003478089100000000000000000000393262500000000000000000000000003527968400000000000000000000393250000000000000000000000000003260369600000000000000000000393237500000000000000000000000003327087300000000000000000000393225000000000000000000000000003311990500000000000000000000393212500000000000000000000000003251226700000000000000000000393200000000000000000000000000003116212400000000000000000000393187500000000000000000000000003518648600000000000000000000393175000000000000000000000000003556204400000000000000000000393162500000000000000000000000003158054000000000000000000000393150000000000000000000000000002941917700000000000000000000393137500000000000000000000000003003689700000000000000000000393125000000000000000000000000003320449500000000000000000000393112500000000000000000000000003370757200000000000000000000393100000000000000000000000000003153561300000000000000000000393087500000000000000000000000003277034600000000000000000000393075000000000000000000000000002956998900000000000000000000393062500000000000000000000000003362362100000000000000000000393050000000000000000000000000003388560600000000000000000000393037500000000000000000000000003148937300000000000000000000393025000000000000000000000000003033086500000000000000000000393012500000000000000000000000003261065100000000000000000000393000000000000000000000,
    3376473700000000000000000000394587500000000000000000000000003209797900000000000000000000394575000000000000000000000000003072506800000000000000000000394562500000000000000000000000003374702300000000000000000000394550000000000000000000000000003180548200000000000000000000394537500000000000000000000000003109885800000000000000000000394525000000000000000000000000003041188600000000000000000000394512500000000000000000000000003282874200000000000000000000394500000000000000000000000000003729440000000000000000000000394487500000000000000000000000003488813700000000000000000000394475000000000000000000000000003040864000000000000000000000394462500000000000000000000000003000070000000000000000000000394450000000000000000000000000003102314400000000000000000000394437500000000000000000000000003163862300000000000000000000394425000000000000000000000000003385709100000000000000000000394412500000000000000000000000003675065500000000000000000000394400000000000000000000000000003602496200000000000000000000394387500000000000000000000000003155859300000000000000000000394375000000000000000000000000003137494300000000000000000000394362500000000000000000000000003113478400000000000000000000394350000000000000000000000000003185218200000000000000000000394337500000000000000000000000003235054200000000000000000000394325000000000000000000000000003229541500000000000000000000394312500000000000000000000000003451053500000000000000000000394300000000000000000000000000003649168900000000000000000000394287500000000000000000000000003630916500000000000000000000394275000000000000000000000000003437439000000000000000000000394262500000000000000000000000003219449700000000000000000000394250000000000000000000000000003143613500000000000000000000394237500000000000000000000000003137688900000000000000000000394225000000000000000000000000003163145800000000000000000000394212500000000000000000000000002978238700000000000000000000394200000000000000000000000000003124212900000000000000000000394187500000000000000000000000003090031800000000000000000000394175000000000000000000000000003176948700000000000000000000394162500000000000000000000000002999688900000000000000000000394150000000000000000000000000003336641400000000000000000000394137500000000000000000000000003470681200000000000000000000394125000000000000000000000000003571080100000000000000000000394112500000000000000000000000003323096000000000000000000000394100000000000000000000000000003250853600000000000000000000394087500000000000000000000000003428954300000000000000000000394075000000000000000000000000003558577500000000000000000000394062500000000000000000000000003558568400000000000000000000394050000000000000000000000000003535609400000000000000000000394037500000000000000000000000003328996100000000000000000000394025000000000000000000000000003399293600000000000000000000394012500000000000000000000000003409583700000000000000000000394000000000000000000000000000003132304100000000000000000000393987500000000000000000000000003090655900000000000000000000393975000000000000000000000000003265413400000000000000000000393962500000000000000000000000003349520700000000000000000000393950000000000000000000000000003299761500000000000000000000393937500000000000000000000000003085625500000000000000000000393925000000000000000000000000003245664300000000000000000000393912500000000000000000000000003095784000000000000000000000393900000000000000000000000000003360371700000000000000000000393887500000000000000000000000003547859100000000000000000000393875000000000000000000000000003349893800000000000000000000393862500000000000000000000000003003518100000000000000000000393850000000000000000000000000003198130700000000000000000000393837500000000000000000000000003323446300000000000000000000393825000000000000000000000000003258977100000000000000000000393812500000000000000000000000003093426500000000000000000000393800000000000000000000,
    3271935800000000000000000000395387500000000000000000000000003247744400000000000000000000395375000000000000000000000000003087441600000000000000000000395362500000000000000000000000003139847700000000000000000000395350000000000000000000000000003109978900000000000000000000395337500000000000000000000000003313275400000000000000000000395325000000000000000000000000003288926300000000000000000000395312500000000000000000000000003295155100000000000000000000395300000000000000000000000000003477540600000000000000000000395287500000000000000000000000003455255700000000000000000000395275000000000000000000000000003138706900000000000000000000395262500000000000000000000000003217235800000000000000000000395250000000000000000000000000003374784400000000000000000000395237500000000000000000000000003260424100000000000000000000395225000000000000000000000000003425632700000000000000000000395212500000000000000000000000003611113200000000000000000000395200000000000000000000000000003283640100000000000000000000395187500000000000000000000000003284882100000000000000000000395175000000000000000000000000003284082700000000000000000000395162500000000000000000000000003441151700000000000000000000395150000000000000000000000000003288451500000000000000000000395137500000000000000000000000003261348400000000000000000000395125000000000000000000000000003240982400000000000000000000395112500000000000000000000000003184235400000000000000000000395100000000000000000000000000003144170500000000000000000000395087500000000000000000000000003061136900000000000000000000395075000000000000000000000000003075851900000000000000000000395062500000000000000000000000003182286500000000000000000000395050000000000000000000000000003339194900000000000000000000395037500000000000000000000000003362927300000000000000000000395025000000000000000000000000003390329200000000000000000000395012500000000000000000000000003321350100000000000000000000395000000000000000000000000000003021326200000000000000000000394987500000000000000000000000003083009200000000000000000000394975000000000000000000000000003018374600000000000000000000394962500000000000000000000000003261462600000000000000000000394950000000000000000000000000003567965400000000000000000000394937500000000000000000000000003624544100000000000000000000394925000000000000000000000000003354172200000000000000000000394912500000000000000000000000003357978800000000000000000000394900000000000000000000000000003589440300000000000000000000394887500000000000000000000000003183627000000000000000000000394875000000000000000000000000003077954400000000000000000000394862500000000000000000000000003251649200000000000000000000394850000000000000000000000000003155772100000000000000000000394837500000000000000000000000003286803000000000000000000000394825000000000000000000000000003355411000000000000000000000394812500000000000000000000000003321249100000000000000000000394800000000000000000000000000003100484000000000000000000000394787500000000000000000000000003066631900000000000000000000394775000000000000000000000000003062061600000000000000000000394762500000000000000000000000003086723900000000000000000000394750000000000000000000000000003652773900000000000000000000394737500000000000000000000000003845301300000000000000000000394725000000000000000000000000003487914000000000000000000000394712500000000000000000000000003364469600000000000000000000394700000000000000000000000000003473652300000000000000000000394687500000000000000000000000003483346600000000000000000000394675000000000000000000000000003333658700000000000000000000394662500000000000000000000000003092771300000000000000000000394650000000000000000000000000003201077700000000000000000000394637500000000000000000000000003147805600000000000000000000394625000000000000000000000000003166382500000000000000000000394612500000000000000000000000003071791200000000000000000000394600000000000000000000,
    3235538100000000000000000000396187500000000000000000000000003343116100000000000000000000396175000000000000000000000000003277160800000000000000000000396162500000000000000000000000003309287600000000000000000000396150000000000000000000000000003216031300000000000000000000396137500000000000000000000000003117836300000000000000000000396125000000000000000000000000003348215900000000000000000000396112500000000000000000000000003301853900000000000000000000396100000000000000000000000000003353687200000000000000000000396087500000000000000000000000003230367900000000000000000000396075000000000000000000000000002994537400000000000000000000396062500000000000000000000000002971841800000000000000000000396050000000000000000000000000003260506800000000000000000000396037500000000000000000000000003343404000000000000000000000396025000000000000000000000000003355308100000000000000000000396012500000000000000000000000003405179600000000000000000000396000000000000000000000000000003516753300000000000000000000395987500000000000000000000000003581344300000000000000000000395975000000000000000000000000003219184300000000000000000000395962500000000000000000000000003399885700000000000000000000395950000000000000000000000000003331887700000000000000000000395937500000000000000000000000003144965600000000000000000000395925000000000000000000000000003047764400000000000000000000395912500000000000000000000000003017175900000000000000000000395900000000000000000000000000003041842300000000000000000000395887500000000000000000000000003087759100000000000000000000395875000000000000000000000000003390164100000000000000000000395862500000000000000000000000003470136800000000000000000000395850000000000000000000000000003311644000000000000000000000395837500000000000000000000000002944124500000000000000000000395825000000000000000000000000003086158600000000000000000000395812500000000000000000000000003306379000000000000000000000395800000000000000000000000000003112773800000000000000000000395787500000000000000000000000003410544000000000000000000000395775000000000000000000000000003571923400000000000000000000395762500000000000000000000000003255498100000000000000000000395750000000000000000000000000003149057600000000000000000000395737500000000000000000000000003120923900000000000000000000395725000000000000000000000000003086455600000000000000000000395712500000000000000000000000003220043900000000000000000000395700000000000000000000000000003291702200000000000000000000395687500000000000000000000000003412550100000000000000000000395675000000000000000000000000003307290900000000000000000000395662500000000000000000000000003277895100000000000000000000395650000000000000000000000000003632520100000000000000000000395637500000000000000000000000003507181600000000000000000000395625000000000000000000000000003630597600000000000000000000395612500000000000000000000000003581084700000000000000000000395600000000000000000000000000003525544500000000000000000000395587500000000000000000000000003396697500000000000000000000395575000000000000000000000000003183678400000000000000000000395562500000000000000000000000003121715400000000000000000000395550000000000000000000000000003095961400000000000000000000395537500000000000000000000000003428335600000000000000000000395525000000000000000000000000003440032900000000000000000000395512500000000000000000000000003634905600000000000000000000395500000000000000000000000000003469291200000000000000000000395487500000000000000000000000003293775900000000000000000000395475000000000000000000000000003500270200000000000000000000395462500000000000000000000000003533687600000000000000000000395450000000000000000000000000003515897400000000000000000000395437500000000000000000000000003423635900000000000000000000395425000000000000000000000000003452566000000000000000000000395412500000000000000000000000003306056900000000000000000000395400000000000000000000,
    3216929100000000000000000000396987500000000000000000000000003345242800000000000000000000396975000000000000000000000000003002322100000000000000000000396962500000000000000000000000002886726800000000000000000000396950000000000000000000000000003078196500000000000000000000396937500000000000000000000000003094666600000000000000000000396925000000000000000000000000003032928400000000000000000000396912500000000000000000000000003086846100000000000000000000396900000000000000000000000000003025003500000000000000000000396887500000000000000000000000003168733100000000000000000000396875000000000000000000000000003375733100000000000000000000396862500000000000000000000000003137820200000000000000000000396850000000000000000000000000003172927100000000000000000000396837500000000000000000000000003565674700000000000000000000396825000000000000000000000000003510631200000000000000000000396812500000000000000000000000003265531200000000000000000000396800000000000000000000000000003397033900000000000000000000396787500000000000000000000000003478691400000000000000000000396775000000000000000000000000003361311700000000000000000000396762500000000000000000000000003497609300000000000000000000396750000000000000000000000000003452559900000000000000000000396737500000000000000000000000003370419200000000000000000000396725000000000000000000000000003323325700000000000000000000396712500000000000000000000000003276305700000000000000000000396700000000000000000000000000003183978000000000000000000000396687500000000000000000000000003140869800000000000000000000396675000000000000000000000000003357119700000000000000000000396662500000000000000000000000003399157800000000000000000000396650000000000000000000000000003354109900000000000000000000396637500000000000000000000000003180671900000000000000000000396625000000000000000000000000003310140800000000000000000000396612500000000000000000000000003462764800000000000000000000396600000000000000000000000000003541208600000000000000000000396587500000000000000000000000003294595100000000000000000000396575000000000000000000000000003475911400000000000000000000396562500000000000000000000000003315603700000000000000000000396550000000000000000000000000003297750500000000000000000000396537500000000000000000000000003412202500000000000000000000396525000000000000000000000000003284335600000000000000000000396512500000000000000000000000003347988000000000000000000000396500000000000000000000000000003424749100000000000000000000396487500000000000000000000000003300083400000000000000000000396475000000000000000000000000003204821600000000000000000000396462500000000000000000000000003256738700000000000000000000396450000000000000000000000000003516958100000000000000000000396437500000000000000000000000003237756300000000000000000000396425000000000000000000000000003159708300000000000000000000396412500000000000000000000000003258147100000000000000000000396400000000000000000000000000003316601000000000000000000000396387500000000000000000000000003528534000000000000000000000396375000000000000000000000000003426865600000000000000000000396362500000000000000000000000003148463500000000000000000000396350000000000000000000000000003376680600000000000000000000396337500000000000000000000000003359007500000000000000000000396325000000000000000000000000003085142100000000000000000000396312500000000000000000000000003220622200000000000000000000396300000000000000000000000000003368234400000000000000000000396287500000000000000000000000003163151900000000000000000000396275000000000000000000000000003159749400000000000000000000396262500000000000000000000000003378207800000000000000000000396250000000000000000000000000003284974800000000000000000000396237500000000000000000000000003222322800000000000000000000396225000000000000000000000000003313677800000000000000000000396212500000000000000000000000003517597100000000000000000000396200000000000000000000,
    3505813500000000000000000000397787500000000000000000000000003265037200000000000000000000397775000000000000000000000000003346004700000000000000000000397762500000000000000000000000003400532800000000000000000000397750000000000000000000000000003256932300000000000000000000397737500000000000000000000000003170626200000000000000000000397725000000000000000000000000003311802000000000000000000000397712500000000000000000000000003182447800000000000000000000397700000000000000000000000000003311431800000000000000000000397687500000000000000000000000003080127700000000000000000000397675000000000000000000000000003259826700000000000000000000397662500000000000000000000000003447680900000000000000000000397650000000000000000000000000003623918200000000000000000000397637500000000000000000000000003332031200000000000000000000397625000000000000000000000000003436694200000000000000000000397612500000000000000000000000003506019800000000000000000000397600000000000000000000000000003210887000000000000000000000397587500000000000000000000000003257188900000000000000000000397575000000000000000000000000003525809800000000000000000000397562500000000000000000000000003653771500000000000000000000397550000000000000000000000000003601252400000000000000000000397537500000000000000000000000003216726100000000000000000000397525000000000000000000000000003014005900000000000000000000397512500000000000000000000000003112533800000000000000000000397500000000000000000000000000003277232800000000000000000000397487500000000000000000000000003488855300000000000000000000397475000000000000000000000000003535316700000000000000000000397462500000000000000000000000003247704700000000000000000000397450000000000000000000000000003248015300000000000000000000397437500000000000000000000000003354223100000000000000000000397425000000000000000000000000003512896800000000000000000000397412500000000000000000000000003528304900000000000000000000397400000000000000000000000000003336527100000000000000000000397387500000000000000000000000003252211600000000000000000000397375000000000000000000000000003241789800000000000000000000397362500000000000000000000000003184590200000000000000000000397350000000000000000000000000003440502900000000000000000000397337500000000000000000000000003563299900000000000000000000397325000000000000000000000000003367843000000000000000000000397312500000000000000000000000003480902900000000000000000000397300000000000000000000000000003468305100000000000000000000397287500000000000000000000000003283332800000000000000000000397275000000000000000000000000003221014100000000000000000000397262500000000000000000000000003408662900000000000000000000397250000000000000000000000000003350595800000000000000000000397237500000000000000000000000003267450400000000000000000000397225000000000000000000000000003338776200000000000000000000397212500000000000000000000000003464786600000000000000000000397200000000000000000000000000003348852100000000000000000000397187500000000000000000000000003030148600000000000000000000397175000000000000000000000000003239276200000000000000000000397162500000000000000000000000003471723900000000000000000000397150000000000000000000000000003276974500000000000000000000397137500000000000000000000000003441703600000000000000000000397125000000000000000000000000003423241800000000000000000000397112500000000000000000000000003432338500000000000000000000397100000000000000000000000000003259398200000000000000000000397087500000000000000000000000003053755700000000000000000000397075000000000000000000000000003203925200000000000000000000397062500000000000000000000000003259325900000000000000000000397050000000000000000000000000003298683400000000000000000000397037500000000000000000000000003621512200000000000000000000397025000000000000000000000000003689052900000000000000000000397012500000000000000000000000003441878400000000000000000000397000000000000000000000,
    3479846900000000000000000000398587500000000000000000000000003358819000000000000000000000398575000000000000000000000000003308313900000000000000000000398562500000000000000000000000003411006300000000000000000000398550000000000000000000000000003302558500000000000000000000398537500000000000000000000000003137332600000000000000000000398525000000000000000000000000003190053000000000000000000000398512500000000000000000000000003164951800000000000000000000398500000000000000000000000000003169802800000000000000000000398487500000000000000000000000003392133900000000000000000000398475000000000000000000000000003546431900000000000000000000398462500000000000000000000000003686636800000000000000000000398450000000000000000000000000003267638600000000000000000000398437500000000000000000000000003295708700000000000000000000398425000000000000000000000000003468976300000000000000000000398412500000000000000000000000003590314900000000000000000000398400000000000000000000000000003753915100000000000000000000398387500000000000000000000000003486831400000000000000000000398375000000000000000000000000003267284900000000000000000000398362500000000000000000000000003432108900000000000000000000398350000000000000000000000000003318992400000000000000000000398337500000000000000000000000003368174400000000000000000000398325000000000000000000000000003320520600000000000000000000398312500000000000000000000000003416431900000000000000000000398300000000000000000000000000003462934500000000000000000000398287500000000000000000000000003277364900000000000000000000398275000000000000000000000000003336467200000000000000000000398262500000000000000000000000003210840800000000000000000000398250000000000000000000000000003108748300000000000000000000398237500000000000000000000000003028086000000000000000000000398225000000000000000000000000003243495600000000000000000000398212500000000000000000000000003472416600000000000000000000398200000000000000000000000000003619327400000000000000000000398187500000000000000000000000003512987000000000000000000000398175000000000000000000000000003397716200000000000000000000398162500000000000000000000000003441237500000000000000000000398150000000000000000000000000003568046800000000000000000000398137500000000000000000000000003476878700000000000000000000398125000000000000000000000000003471062800000000000000000000398112500000000000000000000000003296987600000000000000000000398100000000000000000000000000003451439200000000000000000000398087500000000000000000000000003201787300000000000000000000398075000000000000000000000000003209271000000000000000000000398062500000000000000000000000003311716000000000000000000000398050000000000000000000000000003362554000000000000000000000398037500000000000000000000000003537606600000000000000000000398025000000000000000000000000003464587600000000000000000000398012500000000000000000000000003289664500000000000000000000398000000000000000000000000000002997675600000000000000000000397987500000000000000000000000003205821300000000000000000000397975000000000000000000000000003173075300000000000000000000397962500000000000000000000000003413899600000000000000000000397950000000000000000000000000003267710800000000000000000000397937500000000000000000000000003339871100000000000000000000397925000000000000000000000000003410313800000000000000000000397912500000000000000000000000003226008700000000000000000000397900000000000000000000000000003615046500000000000000000000397887500000000000000000000000003500606500000000000000000000397875000000000000000000000000003220479200000000000000000000397862500000000000000000000000003247087100000000000000000000397850000000000000000000000000003351133400000000000000000000397837500000000000000000000000003264133700000000000000000000397825000000000000000000000000003262547900000000000000000000397812500000000000000000000000003447414200000000000000000000397800000000000000000000,
    3346986900000000000000000000399387500000000000000000000000003500592700000000000000000000399375000000000000000000000000003342371300000000000000000000399362500000000000000000000000003266359300000000000000000000399350000000000000000000000000003366431500000000000000000000399337500000000000000000000000003293002900000000000000000000399325000000000000000000000000003547725400000000000000000000399312500000000000000000000000003487371700000000000000000000399300000000000000000000000000003383137500000000000000000000399287500000000000000000000000003579571500000000000000000000399275000000000000000000000000003301131200000000000000000000399262500000000000000000000000003171376200000000000000000000399250000000000000000000000000003359293600000000000000000000399237500000000000000000000000003348957300000000000000000000399225000000000000000000000000003466531600000000000000000000399212500000000000000000000000003676253900000000000000000000399200000000000000000000000000003479869500000000000000000000399187500000000000000000000000003103024300000000000000000000399175000000000000000000000000003203899700000000000000000000399162500000000000000000000000003249443800000000000000000000399150000000000000000000000000003566089700000000000000000000399137500000000000000000000000003403762500000000000000000000399125000000000000000000000000003402551800000000000000000000399112500000000000000000000000003402802400000000000000000000399100000000000000000000000000003168236500000000000000000000399087500000000000000000000000003207602500000000000000000000399075000000000000000000000000003447776500000000000000000000399062500000000000000000000000003372883700000000000000000000399050000000000000000000000000003589500600000000000000000000399037500000000000000000000000003335364200000000000000000000399025000000000000000000000000003138128200000000000000000000399012500000000000000000000000003447109100000000000000000000399000000000000000000000000000003378837800000000000000000000398987500000000000000000000000003336018200000000000000000000398975000000000000000000000000003389230700000000000000000000398962500000000000000000000000003039902800000000000000000000398950000000000000000000000000002934258600000000000000000000398937500000000000000000000000003462624700000000000000000000398925000000000000000000000000003450219700000000000000000000398912500000000000000000000000003425974400000000000000000000398900000000000000000000000000003378916100000000000000000000398887500000000000000000000000003327631800000000000000000000398875000000000000000000000000003175398800000000000000000000398862500000000000000000000000003132256800000000000000000000398850000000000000000000000000003024195700000000000000000000398837500000000000000000000000003002919300000000000000000000398825000000000000000000000000002910337000000000000000000000398812500000000000000000000000003267406300000000000000000000398800000000000000000000000000003433859100000000000000000000398787500000000000000000000000003426698700000000000000000000398775000000000000000000000000003123205700000000000000000000398762500000000000000000000000003317877100000000000000000000398750000000000000000000000000003334302600000000000000000000398737500000000000000000000000003295851400000000000000000000398725000000000000000000000000003098517100000000000000000000398712500000000000000000000000003006154900000000000000000000398700000000000000000000000000002966488800000000000000000000398687500000000000000000000000003172148900000000000000000000398675000000000000000000000000003166013800000000000000000000398662500000000000000000000000003336083400000000000000000000398650000000000000000000000000003267078900000000000000000000398637500000000000000000000000003261018600000000000000000000398625000000000000000000000000003433604800000000000000000000398612500000000000000000000000003377147800000000000000000000398600000000000000000000,
    3526849500000000000000000000400187500000000000000000000000003865517200000000000000000000400175000000000000000000000000003803203600000000000000000000400162500000000000000000000000003419963400000000000000000000400150000000000000000000000000003295920100000000000000000000400137500000000000000000000000003259558600000000000000000000400125000000000000000000000000003348246500000000000000000000400112500000000000000000000000003416169800000000000000000000400100000000000000000000000000003763094900000000000000000000400087500000000000000000000000003788409800000000000000000000400075000000000000000000000000003708460700000000000000000000400062500000000000000000000000003908615200000000000000000000400050000000000000000000000000004692919000000000000000000000400037500000000000000000000000008147814100000000000000000000400025000000000000000000000000013056870000000000000000000000400012500000000000000000000000011359098000000000000000000000400000000000000000000000000000006538680400000000000000000000399987500000000000000000000000004462954900000000000000000000399975000000000000000000000000003856689600000000000000000000399962500000000000000000000000003242624800000000000000000000399950000000000000000000000000003288359100000000000000000000399937500000000000000000000000003302570700000000000000000000399925000000000000000000000000003333797500000000000000000000399912500000000000000000000000003429701300000000000000000000399900000000000000000000000000003479003000000000000000000000399887500000000000000000000000003778258700000000000000000000399875000000000000000000000000003693019100000000000000000000399862500000000000000000000000003735553300000000000000000000399850000000000000000000000000003387435300000000000000000000399837500000000000000000000000003142684900000000000000000000399825000000000000000000000000003316936700000000000000000000399812500000000000000000000000003433945400000000000000000000399800000000000000000000000000003037951800000000000000000000399787500000000000000000000000003304207300000000000000000000399775000000000000000000000000003202089500000000000000000000399762500000000000000000000000003235565800000000000000000000399750000000000000000000000000003432693900000000000000000000399737500000000000000000000000003397256900000000000000000000399725000000000000000000000000003358074400000000000000000000399712500000000000000000000000003265018500000000000000000000399700000000000000000000000000003592439000000000000000000000399687500000000000000000000000003406455200000000000000000000399675000000000000000000000000003218681800000000000000000000399662500000000000000000000000003278142400000000000000000000399650000000000000000000000000003489942500000000000000000000399637500000000000000000000000003742613900000000000000000000399625000000000000000000000000003378737500000000000000000000399612500000000000000000000000003486829400000000000000000000399600000000000000000000000000003544316200000000000000000000399587500000000000000000000000003321398000000000000000000000399575000000000000000000000000003282101300000000000000000000399562500000000000000000000000003185958400000000000000000000399550000000000000000000000000003192082900000000000000000000399537500000000000000000000000003537836100000000000000000000399525000000000000000000000000003186946700000000000000000000399512500000000000000000000000003071769600000000000000000000399500000000000000000000000000003246545100000000000000000000399487500000000000000000000000002939600900000000000000000000399475000000000000000000000000003163263800000000000000000000399462500000000000000000000000003160078300000000000000000000399450000000000000000000000000003048264100000000000000000000399437500000000000000000000000003086398500000000000000000000399425000000000000000000000000003398467500000000000000000000399412500000000000000000000000003415268700000000000000000000399400000000000000000000,
    3404790700000000000000000000400987500000000000000000000000003587876100000000000000000000400975000000000000000000000000003812833000000000000000000000400962500000000000000000000000003604927600000000000000000000400950000000000000000000000000003540173600000000000000000000400937500000000000000000000000003506907400000000000000000000400925000000000000000000000000003498906400000000000000000000400912500000000000000000000000003509115000000000000000000000400900000000000000000000000000003528337500000000000000000000400887500000000000000000000000003396839700000000000000000000400875000000000000000000000000003801889400000000000000000000400862500000000000000000000000004033045900000000000000000000400850000000000000000000000000003843788400000000000000000000400837500000000000000000000000003518564700000000000000000000400825000000000000000000000000003298496400000000000000000000400812500000000000000000000000003373722900000000000000000000400800000000000000000000000000003633328500000000000000000000400787500000000000000000000000003564871500000000000000000000400775000000000000000000000000003477955700000000000000000000400762500000000000000000000000003391543100000000000000000000400750000000000000000000000000003378626500000000000000000000400737500000000000000000000000003494701300000000000000000000400725000000000000000000000000003537592600000000000000000000400712500000000000000000000000003502127000000000000000000000400700000000000000000000000000003740873400000000000000000000400687500000000000000000000000003671130800000000000000000000400675000000000000000000000000003348455800000000000000000000400662500000000000000000000000003305846700000000000000000000400650000000000000000000000000003245281700000000000000000000400637500000000000000000000000003387955100000000000000000000400625000000000000000000000000003621238900000000000000000000400612500000000000000000000000003704938100000000000000000000400600000000000000000000000000003757184300000000000000000000400587500000000000000000000000003529689800000000000000000000400575000000000000000000000000003294431500000000000000000000400562500000000000000000000000003436569800000000000000000000400550000000000000000000000000003207063500000000000000000000400537500000000000000000000000003218229200000000000000000000400525000000000000000000000000003262415300000000000000000000400512500000000000000000000000003255565700000000000000000000400500000000000000000000000000003478069100000000000000000000400487500000000000000000000000003679664600000000000000000000400475000000000000000000000000003795095300000000000000000000400462500000000000000000000000003728575200000000000000000000400450000000000000000000000000003205123900000000000000000000400437500000000000000000000000003268680100000000000000000000400425000000000000000000000000003563925800000000000000000000400412500000000000000000000000003555605200000000000000000000400400000000000000000000000000003683001500000000000000000000400387500000000000000000000000003729272300000000000000000000400375000000000000000000000000003402815800000000000000000000400362500000000000000000000000003449235700000000000000000000400350000000000000000000000000003346082200000000000000000000400337500000000000000000000000003480667300000000000000000000400325000000000000000000000000003445732500000000000000000000400312500000000000000000000000003456112400000000000000000000400300000000000000000000000000003534043900000000000000000000400287500000000000000000000000003594954000000000000000000000400275000000000000000000000000003541315400000000000000000000400262500000000000000000000000003657238500000000000000000000400250000000000000000000000000003612310800000000000000000000400237500000000000000000000000003595314900000000000000000000400225000000000000000000000000003541807200000000000000000000400212500000000000000000000000003493277800000000000000000000400200000000000000000000,
    3348888800000000000000000000401787500000000000000000000000003736024100000000000000000000401775000000000000000000000000003461964300000000000000000000401762500000000000000000000000003238998800000000000000000000401750000000000000000000000000002998528000000000000000000000401737500000000000000000000000003081463000000000000000000000401725000000000000000000000000003141336500000000000000000000401712500000000000000000000000003044532800000000000000000000401700000000000000000000000000003241203500000000000000000000401687500000000000000000000000003528567500000000000000000000401675000000000000000000000000003450905600000000000000000000401662500000000000000000000000003246203900000000000000000000401650000000000000000000000000003360197700000000000000000000401637500000000000000000000000003521823100000000000000000000401625000000000000000000000000003613208900000000000000000000401612500000000000000000000000003687251400000000000000000000401600000000000000000000000000003616091000000000000000000000401587500000000000000000000000003697279200000000000000000000401575000000000000000000000000003464568100000000000000000000401562500000000000000000000000003374583800000000000000000000401550000000000000000000000000003634461400000000000000000000401537500000000000000000000000003866147600000000000000000000401525000000000000000000000000003710093200000000000000000000401512500000000000000000000000003378924800000000000000000000401500000000000000000000000000003286003800000000000000000000401487500000000000000000000000003358823800000000000000000000401475000000000000000000000000003435078900000000000000000000401462500000000000000000000000003440804600000000000000000000401450000000000000000000000000003423955300000000000000000000401437500000000000000000000000003414425300000000000000000000401425000000000000000000000000003584807400000000000000000000401412500000000000000000000000003409706300000000000000000000401400000000000000000000000000003475348700000000000000000000401387500000000000000000000000003592245500000000000000000000401375000000000000000000000000003352507600000000000000000000401362500000000000000000000000003466366100000000000000000000401350000000000000000000000000003550546100000000000000000000401337500000000000000000000000003512762500000000000000000000401325000000000000000000000000003330155700000000000000000000401312500000000000000000000000003296404000000000000000000000401300000000000000000000000000003137497900000000000000000000401287500000000000000000000000003290064700000000000000000000401275000000000000000000000000003485781100000000000000000000401262500000000000000000000000003570693200000000000000000000401250000000000000000000000000003143805400000000000000000000401237500000000000000000000000003053173500000000000000000000401225000000000000000000000000003164915300000000000000000000401212500000000000000000000000003465499500000000000000000000401200000000000000000000000000003505139000000000000000000000401187500000000000000000000000003151427900000000000000000000401175000000000000000000000000003338008300000000000000000000401162500000000000000000000000003742470200000000000000000000401150000000000000000000000000003458058200000000000000000000401137500000000000000000000000003294646900000000000000000000401125000000000000000000000000003533775100000000000000000000401112500000000000000000000000003573663600000000000000000000401100000000000000000000000000003721502500000000000000000000401087500000000000000000000000003491441800000000000000000000401075000000000000000000000000003342689700000000000000000000401062500000000000000000000000003604636100000000000000000000401050000000000000000000000000003520638400000000000000000000401037500000000000000000000000003198316300000000000000000000401025000000000000000000000000003159576600000000000000000000401012500000000000000000000000003305238800000000000000000000401000000000000000000000,
    3866466100000000000000000000402587500000000000000000000000003881691700000000000000000000402575000000000000000000000000003722874300000000000000000000402562500000000000000000000000003515781700000000000000000000402550000000000000000000000000003630952200000000000000000000402537500000000000000000000000003769262800000000000000000000402525000000000000000000000000004100952300000000000000000000402512500000000000000000000000003968356600000000000000000000402500000000000000000000000000003668937300000000000000000000402487500000000000000000000000003519764800000000000000000000402475000000000000000000000000003423247500000000000000000000402462500000000000000000000000003373593000000000000000000000402450000000000000000000000000003584798900000000000000000000402437500000000000000000000000003372192600000000000000000000402425000000000000000000000000003613474500000000000000000000402412500000000000000000000000003869295200000000000000000000402400000000000000000000000000003536393900000000000000000000402387500000000000000000000000003637737500000000000000000000402375000000000000000000000000003808650500000000000000000000402362500000000000000000000000003742847500000000000000000000402350000000000000000000000000003505919000000000000000000000402337500000000000000000000000003704009600000000000000000000402325000000000000000000000000003379306200000000000000000000402312500000000000000000000000003365522000000000000000000000402300000000000000000000000000003696882200000000000000000000402287500000000000000000000000003475932900000000000000000000402275000000000000000000000000003548391600000000000000000000402262500000000000000000000000003534956000000000000000000000402250000000000000000000000000003502061000000000000000000000402237500000000000000000000000003352188400000000000000000000402225000000000000000000000000003587673600000000000000000000402212500000000000000000000000003547885300000000000000000000402200000000000000000000000000003381281400000000000000000000402187500000000000000000000000003898588200000000000000000000402175000000000000000000000000003740700100000000000000000000402162500000000000000000000000003244499100000000000000000000402150000000000000000000000000003177017900000000000000000000402137500000000000000000000000003474890200000000000000000000402125000000000000000000000000003510829300000000000000000000402112500000000000000000000000003409113800000000000000000000402100000000000000000000000000003640400600000000000000000000402087500000000000000000000000003508328800000000000000000000402075000000000000000000000000003566460600000000000000000000402062500000000000000000000000003530194200000000000000000000402050000000000000000000000000003564503600000000000000000000402037500000000000000000000000003387504000000000000000000000402025000000000000000000000000003347603800000000000000000000402012500000000000000000000000003473970000000000000000000000402000000000000000000000000000003703370100000000000000000000401987500000000000000000000000003537005300000000000000000000401975000000000000000000000000003407855100000000000000000000401962500000000000000000000000003430540500000000000000000000401950000000000000000000000000003697604500000000000000000000401937500000000000000000000000003482086200000000000000000000401925000000000000000000000000003200419400000000000000000000401912500000000000000000000000003599636900000000000000000000401900000000000000000000000000003863263300000000000000000000401887500000000000000000000000003658572900000000000000000000401875000000000000000000000000003592862700000000000000000000401862500000000000000000000000003615529100000000000000000000401850000000000000000000000000003681288700000000000000000000401837500000000000000000000000003664233900000000000000000000401825000000000000000000000000003557205700000000000000000000401812500000000000000000000000003202506900000000000000000000401800000000000000000000,
    3509814000000000000000000000403387500000000000000000000000003463053600000000000000000000403375000000000000000000000000003276825800000000000000000000403362500000000000000000000000003244705600000000000000000000403350000000000000000000000000003607871200000000000000000000403337500000000000000000000000003650572400000000000000000000403325000000000000000000000000003807912200000000000000000000403312500000000000000000000000003667415300000000000000000000403300000000000000000000000000003733339100000000000000000000403287500000000000000000000000003462295300000000000000000000403275000000000000000000000000003346810500000000000000000000403262500000000000000000000000003365147100000000000000000000403250000000000000000000000000003106317900000000000000000000403237500000000000000000000000003327845900000000000000000000403225000000000000000000000000003525255500000000000000000000403212500000000000000000000000003447975800000000000000000000403200000000000000000000000000003531530900000000000000000000403187500000000000000000000000003707004900000000000000000000403175000000000000000000000000003448549700000000000000000000403162500000000000000000000000003597047600000000000000000000403150000000000000000000000000003521093400000000000000000000403137500000000000000000000000003473340700000000000000000000403125000000000000000000000000003670610300000000000000000000403112500000000000000000000000003395506800000000000000000000403100000000000000000000000000003529061400000000000000000000403087500000000000000000000000003708908300000000000000000000403075000000000000000000000000003695949500000000000000000000403062500000000000000000000000003332736400000000000000000000403050000000000000000000000000003679189300000000000000000000403037500000000000000000000000003765863300000000000000000000403025000000000000000000000000003465306300000000000000000000403012500000000000000000000000003507337700000000000000000000403000000000000000000000000000003358798200000000000000000000402987500000000000000000000000003434144100000000000000000000402975000000000000000000000000003519581900000000000000000000402962500000000000000000000000003521693300000000000000000000402950000000000000000000000000003541909300000000000000000000402937500000000000000000000000003684627200000000000000000000402925000000000000000000000000003529125100000000000000000000402912500000000000000000000000003593236600000000000000000000402900000000000000000000000000003731152600000000000000000000402887500000000000000000000000003489602300000000000000000000402875000000000000000000000000003293767700000000000000000000402862500000000000000000000000003266685500000000000000000000402850000000000000000000000000003508767700000000000000000000402837500000000000000000000000003348745100000000000000000000402825000000000000000000000000003399850700000000000000000000402812500000000000000000000000003209293900000000000000000000402800000000000000000000000000003341167300000000000000000000402787500000000000000000000000003618193000000000000000000000402775000000000000000000000000003568261300000000000000000000402762500000000000000000000000003433117900000000000000000000402750000000000000000000000000003385711000000000000000000000402737500000000000000000000000003490517600000000000000000000402725000000000000000000000000003274474400000000000000000000402712500000000000000000000000003166882000000000000000000000402700000000000000000000000000003505592300000000000000000000402687500000000000000000000000003880495100000000000000000000402675000000000000000000000000003901058900000000000000000000402662500000000000000000000000003664098900000000000000000000402650000000000000000000000000003823539300000000000000000000402637500000000000000000000000003910705100000000000000000000402625000000000000000000000000004088118900000000000000000000402612500000000000000000000000004032281800000000000000000000402600000000000000000000,
    3453201100000000000000000000404187500000000000000000000000002925702300000000000000000000404175000000000000000000000000003270111500000000000000000000404162500000000000000000000000003309795000000000000000000000404150000000000000000000000000003255250500000000000000000000404137500000000000000000000000003331687600000000000000000000404125000000000000000000000000003357272700000000000000000000404112500000000000000000000000003367203400000000000000000000404100000000000000000000000000003405341600000000000000000000404087500000000000000000000000003616267700000000000000000000404075000000000000000000000000003375421600000000000000000000404062500000000000000000000000003244385200000000000000000000404050000000000000000000000000003076602300000000000000000000404037500000000000000000000000002976478200000000000000000000404025000000000000000000000000003437037400000000000000000000404012500000000000000000000000003545564500000000000000000000404000000000000000000000000000003476098400000000000000000000403987500000000000000000000000003539596100000000000000000000403975000000000000000000000000003548149900000000000000000000403962500000000000000000000000003135970500000000000000000000403950000000000000000000000000003110994900000000000000000000403937500000000000000000000000003626010600000000000000000000403925000000000000000000000000003763363700000000000000000000403912500000000000000000000000003615723600000000000000000000403900000000000000000000000000003698038000000000000000000000403887500000000000000000000000003411181000000000000000000000403875000000000000000000000000003375837000000000000000000000403862500000000000000000000000003597364600000000000000000000403850000000000000000000000000003437578200000000000000000000403837500000000000000000000000003258798700000000000000000000403825000000000000000000000000003327303200000000000000000000403812500000000000000000000000003342854400000000000000000000403800000000000000000000000000003271732100000000000000000000403787500000000000000000000000003395376500000000000000000000403775000000000000000000000000003296667100000000000000000000403762500000000000000000000000003291873000000000000000000000403750000000000000000000000000003466115400000000000000000000403737500000000000000000000000003418693100000000000000000000403725000000000000000000000000003212709800000000000000000000403712500000000000000000000000003170294500000000000000000000403700000000000000000000000000003021349600000000000000000000403687500000000000000000000000003241062200000000000000000000403675000000000000000000000000003383328000000000000000000000403662500000000000000000000000003471624900000000000000000000403650000000000000000000000000003710085800000000000000000000403637500000000000000000000000003575634500000000000000000000403625000000000000000000000000003566696900000000000000000000403612500000000000000000000000003545575600000000000000000000403600000000000000000000000000003624896300000000000000000000403587500000000000000000000000003484723800000000000000000000403575000000000000000000000000003226777800000000000000000000403562500000000000000000000000003324587100000000000000000000403550000000000000000000000000003566864500000000000000000000403537500000000000000000000000003693698700000000000000000000403525000000000000000000000000003669699800000000000000000000403512500000000000000000000000003464541600000000000000000000403500000000000000000000000000003485115600000000000000000000403487500000000000000000000000003443764500000000000000000000403475000000000000000000000000003187242100000000000000000000403462500000000000000000000000003212597000000000000000000000403450000000000000000000000000003238653700000000000000000000403437500000000000000000000000003397013900000000000000000000403425000000000000000000000000003326232100000000000000000000403412500000000000000000000000003634378400000000000000000000403400000000000000000000,
    3552270400000000000000000000404987500000000000000000000000003529982500000000000000000000404975000000000000000000000000003418260700000000000000000000404962500000000000000000000000003508080200000000000000000000404950000000000000000000000000003496017600000000000000000000404937500000000000000000000000003401345000000000000000000000404925000000000000000000000000003424677800000000000000000000404912500000000000000000000000003459459200000000000000000000404900000000000000000000000000003238364400000000000000000000404887500000000000000000000000003441565600000000000000000000404875000000000000000000000000003757625900000000000000000000404862500000000000000000000000003902090400000000000000000000404850000000000000000000000000003686498100000000000000000000404837500000000000000000000000003901017500000000000000000000404825000000000000000000000000003655616600000000000000000000404812500000000000000000000000003784550600000000000000000000404800000000000000000000000000003362635200000000000000000000404787500000000000000000000000003072337600000000000000000000404775000000000000000000000000003325546200000000000000000000404762500000000000000000000000003409582300000000000000000000404750000000000000000000000000003619317800000000000000000000404737500000000000000000000000003667492800000000000000000000404725000000000000000000000000003436921400000000000000000000404712500000000000000000000000003169837000000000000000000000404700000000000000000000000000003341782300000000000000000000404687500000000000000000000000003466169200000000000000000000404675000000000000000000000000003641192500000000000000000000404662500000000000000000000000003548744900000000000000000000404650000000000000000000000000003345032200000000000000000000404637500000000000000000000000003644279500000000000000000000404625000000000000000000000000003641515800000000000000000000404612500000000000000000000000003506111300000000000000000000404600000000000000000000000000003601099700000000000000000000404587500000000000000000000000003226298300000000000000000000404575000000000000000000000000003404118200000000000000000000404562500000000000000000000000003813541800000000000000000000404550000000000000000000000000003645932000000000000000000000404537500000000000000000000000003438243200000000000000000000404525000000000000000000000000003535600600000000000000000000404512500000000000000000000000003687517500000000000000000000404500000000000000000000000000003770264500000000000000000000404487500000000000000000000000003460662200000000000000000000404475000000000000000000000000003208426100000000000000000000404462500000000000000000000000003400200300000000000000000000404450000000000000000000000000003652241700000000000000000000404437500000000000000000000000003385315200000000000000000000404425000000000000000000000000003418129300000000000000000000404412500000000000000000000000003338583700000000000000000000404400000000000000000000000000003447546000000000000000000000404387500000000000000000000000003477200500000000000000000000404375000000000000000000000000003886571400000000000000000000404362500000000000000000000000003936315500000000000000000000404350000000000000000000000000003743536700000000000000000000404337500000000000000000000000003654222000000000000000000000404325000000000000000000000000003349029700000000000000000000404312500000000000000000000000003363801000000000000000000000404300000000000000000000000000003452771700000000000000000000404287500000000000000000000000003687350600000000000000000000404275000000000000000000000000003859844600000000000000000000404262500000000000000000000000003780049000000000000000000000404250000000000000000000000000003670103200000000000000000000404237500000000000000000000000003304883300000000000000000000404225000000000000000000000000003336376000000000000000000000404212500000000000000000000000003497618000000000000000000000404200000000000000000000,
    3373991400000000000000000000405787500000000000000000000000003879763500000000000000000000405775000000000000000000000000003661732900000000000000000000405762500000000000000000000000003560074400000000000000000000405750000000000000000000000000003552143600000000000000000000405737500000000000000000000000003310034700000000000000000000405725000000000000000000000000003376886300000000000000000000405712500000000000000000000000003494239900000000000000000000405700000000000000000000000000003509305900000000000000000000405687500000000000000000000000003477159900000000000000000000405675000000000000000000000000003390329500000000000000000000405662500000000000000000000000003203869300000000000000000000405650000000000000000000000000003264466900000000000000000000405637500000000000000000000000003531965100000000000000000000405625000000000000000000000000003570059100000000000000000000405612500000000000000000000000003494174600000000000000000000405600000000000000000000000000003414734800000000000000000000405587500000000000000000000000003439611100000000000000000000405575000000000000000000000000003272486400000000000000000000405562500000000000000000000000003263485400000000000000000000405550000000000000000000000000003603639800000000000000000000405537500000000000000000000000003402084600000000000000000000405525000000000000000000000000003393673800000000000000000000405512500000000000000000000000003395778700000000000000000000405500000000000000000000000000003513973900000000000000000000405487500000000000000000000000003684971800000000000000000000405475000000000000000000000000003552179000000000000000000000405462500000000000000000000000003251397500000000000000000000405450000000000000000000000000003232068100000000000000000000405437500000000000000000000000003344134100000000000000000000405425000000000000000000000000003197686400000000000000000000405412500000000000000000000000003251971500000000000000000000405400000000000000000000000000003350341100000000000000000000405387500000000000000000000000003447728900000000000000000000405375000000000000000000000000003334430600000000000000000000405362500000000000000000000000003389279600000000000000000000405350000000000000000000000000003584041100000000000000000000405337500000000000000000000000003723857100000000000000000000405325000000000000000000000000003422195300000000000000000000405312500000000000000000000000003590238600000000000000000000405300000000000000000000000000003557339400000000000000000000405287500000000000000000000000003235980700000000000000000000405275000000000000000000000000003490308900000000000000000000405262500000000000000000000000003469466500000000000000000000405250000000000000000000000000003250250100000000000000000000405237500000000000000000000000003364924900000000000000000000405225000000000000000000000000003326078500000000000000000000405212500000000000000000000000003418307600000000000000000000405200000000000000000000000000003216371700000000000000000000405187500000000000000000000000003373091300000000000000000000405175000000000000000000000000003321596400000000000000000000405162500000000000000000000000003009578700000000000000000000405150000000000000000000000000003351582800000000000000000000405137500000000000000000000000003773618800000000000000000000405125000000000000000000000000003570037300000000000000000000405112500000000000000000000000003266886400000000000000000000405100000000000000000000000000003433111600000000000000000000405087500000000000000000000000003489736100000000000000000000405075000000000000000000000000003354404800000000000000000000405062500000000000000000000000003308234400000000000000000000405050000000000000000000000000003230467500000000000000000000405037500000000000000000000000003308870000000000000000000000405025000000000000000000000000003400957400000000000000000000405012500000000000000000000000003571021200000000000000000000405000000000000000000000,
    3442244100000000000000000000406587500000000000000000000000003452951200000000000000000000406575000000000000000000000000003709029300000000000000000000406562500000000000000000000000003561473300000000000000000000406550000000000000000000000000003295323400000000000000000000406537500000000000000000000000003524902200000000000000000000406525000000000000000000000000003391425000000000000000000000406512500000000000000000000000003503625000000000000000000000406500000000000000000000000000003281066700000000000000000000406487500000000000000000000000003293094400000000000000000000406475000000000000000000000000003631248900000000000000000000406462500000000000000000000000003868499100000000000000000000406450000000000000000000000000003836825900000000000000000000406437500000000000000000000000003763538600000000000000000000406425000000000000000000000000003948477000000000000000000000406412500000000000000000000000004014446900000000000000000000406400000000000000000000000000003683903800000000000000000000406387500000000000000000000000003435989200000000000000000000406375000000000000000000000000003153707700000000000000000000406362500000000000000000000000003103653000000000000000000000406350000000000000000000000000003138062000000000000000000000406337500000000000000000000000003393995900000000000000000000406325000000000000000000000000003490067300000000000000000000406312500000000000000000000000003509795900000000000000000000406300000000000000000000000000003444360700000000000000000000406287500000000000000000000000003560797800000000000000000000406275000000000000000000000000003494823400000000000000000000406262500000000000000000000000003568545400000000000000000000406250000000000000000000000000003720840100000000000000000000406237500000000000000000000000003557538600000000000000000000406225000000000000000000000000003442739500000000000000000000406212500000000000000000000000003355071100000000000000000000406200000000000000000000000000003401550300000000000000000000406187500000000000000000000000003180178400000000000000000000406175000000000000000000000000003395419300000000000000000000406162500000000000000000000000003620325800000000000000000000406150000000000000000000000000003484411400000000000000000000406137500000000000000000000000003348205700000000000000000000406125000000000000000000000000003514850000000000000000000000406112500000000000000000000000003424240000000000000000000000406100000000000000000000000000003211186800000000000000000000406087500000000000000000000000003277532200000000000000000000406075000000000000000000000000003501098700000000000000000000406062500000000000000000000000003410976800000000000000000000406050000000000000000000000000003396610100000000000000000000406037500000000000000000000000003714101700000000000000000000406025000000000000000000000000003730509500000000000000000000406012500000000000000000000000003707774000000000000000000000406000000000000000000000000000003592517600000000000000000000405987500000000000000000000000003366120100000000000000000000405975000000000000000000000000003286940900000000000000000000405962500000000000000000000000003319928200000000000000000000405950000000000000000000000000003341132600000000000000000000405937500000000000000000000000003447415400000000000000000000405925000000000000000000000000003377480100000000000000000000405912500000000000000000000000003423014700000000000000000000405900000000000000000000000000003617400800000000000000000000405887500000000000000000000000003390191000000000000000000000405875000000000000000000000000003192191000000000000000000000405862500000000000000000000000003441018400000000000000000000405850000000000000000000000000003434823900000000000000000000405837500000000000000000000000003303543200000000000000000000405825000000000000000000000000003357185500000000000000000000405812500000000000000000000000003243694100000000000000000000405800000000000000000000,
    3246282200000000000000000000407387500000000000000000000000003449591500000000000000000000407375000000000000000000000000003677023300000000000000000000407362500000000000000000000000003594212400000000000000000000407350000000000000000000000000003513904900000000000000000000407337500000000000000000000000003569947800000000000000000000407325000000000000000000000000003449555000000000000000000000407312500000000000000000000000003292215900000000000000000000407300000000000000000000000000003248201600000000000000000000407287500000000000000000000000003512803800000000000000000000407275000000000000000000000000003717263800000000000000000000407262500000000000000000000000003268852300000000000000000000407250000000000000000000000000003180129600000000000000000000407237500000000000000000000000003340648400000000000000000000407225000000000000000000000000003258364000000000000000000000407212500000000000000000000000003255004500000000000000000000407200000000000000000000000000003185410500000000000000000000407187500000000000000000000000003359958300000000000000000000407175000000000000000000000000003508908300000000000000000000407162500000000000000000000000003615272800000000000000000000407150000000000000000000000000003363700000000000000000000000407137500000000000000000000000003145993000000000000000000000407125000000000000000000000000003339986100000000000000000000407112500000000000000000000000003564610300000000000000000000407100000000000000000000000000003488972800000000000000000000407087500000000000000000000000003535683500000000000000000000407075000000000000000000000000003324009000000000000000000000407062500000000000000000000000003512277700000000000000000000407050000000000000000000000000003408888500000000000000000000407037500000000000000000000000003234937800000000000000000000407025000000000000000000000000003396919400000000000000000000407012500000000000000000000000003546234100000000000000000000407000000000000000000000000000003335053500000000000000000000406987500000000000000000000000003658470800000000000000000000406975000000000000000000000000003577777100000000000000000000406962500000000000000000000000003360508000000000000000000000406950000000000000000000000000003391784900000000000000000000406937500000000000000000000000003404781100000000000000000000406925000000000000000000000000003329968500000000000000000000406912500000000000000000000000003305191100000000000000000000406900000000000000000000000000003520724400000000000000000000406887500000000000000000000000003425870400000000000000000000406875000000000000000000000000003362719100000000000000000000406862500000000000000000000000003468135300000000000000000000406850000000000000000000000000003509426300000000000000000000406837500000000000000000000000003484513800000000000000000000406825000000000000000000000000003786061600000000000000000000406812500000000000000000000000003586561500000000000000000000406800000000000000000000000000003607150000000000000000000000406787500000000000000000000000003826643600000000000000000000406775000000000000000000000000003358562700000000000000000000406762500000000000000000000000003251875100000000000000000000406750000000000000000000000000003246259700000000000000000000406737500000000000000000000000003516739500000000000000000000406725000000000000000000000000003380157500000000000000000000406712500000000000000000000000003449153000000000000000000000406700000000000000000000000000003545155200000000000000000000406687500000000000000000000000003669023300000000000000000000406675000000000000000000000000003377117100000000000000000000406662500000000000000000000000003180407000000000000000000000406650000000000000000000000000003501925700000000000000000000406637500000000000000000000000003365708900000000000000000000406625000000000000000000000000003404394500000000000000000000406612500000000000000000000000003560830500000000000000000000406600000000000000000000,
    3437805500000000000000000000408187500000000000000000000000003376579900000000000000000000408175000000000000000000000000003406448200000000000000000000408162500000000000000000000000003760817700000000000000000000408150000000000000000000000000003581347300000000000000000000408137500000000000000000000000003216688400000000000000000000408125000000000000000000000000003402250100000000000000000000408112500000000000000000000000003331863800000000000000000000408100000000000000000000000000003520320200000000000000000000408087500000000000000000000000003865622100000000000000000000408075000000000000000000000000003662061400000000000000000000408062500000000000000000000000003300857200000000000000000000408050000000000000000000000000003440351200000000000000000000408037500000000000000000000000003446176800000000000000000000408025000000000000000000000000003469163300000000000000000000408012500000000000000000000000003415988300000000000000000000408000000000000000000000000000003790412300000000000000000000407987500000000000000000000000003605652700000000000000000000407975000000000000000000000000003339025200000000000000000000407962500000000000000000000000003454959600000000000000000000407950000000000000000000000000003660666100000000000000000000407937500000000000000000000000003482571100000000000000000000407925000000000000000000000000003412789200000000000000000000407912500000000000000000000000003590410400000000000000000000407900000000000000000000000000003614270000000000000000000000407887500000000000000000000000003519778900000000000000000000407875000000000000000000000000003451477600000000000000000000407862500000000000000000000000003599641300000000000000000000407850000000000000000000000000003657515500000000000000000000407837500000000000000000000000003683725400000000000000000000407825000000000000000000000000003502899500000000000000000000407812500000000000000000000000003566265000000000000000000000407800000000000000000000000000003686620700000000000000000000407787500000000000000000000000003577857900000000000000000000407775000000000000000000000000003593390200000000000000000000407762500000000000000000000000003455252900000000000000000000407750000000000000000000000000003396224400000000000000000000407737500000000000000000000000003472620700000000000000000000407725000000000000000000000000003325314500000000000000000000407712500000000000000000000000003405012700000000000000000000407700000000000000000000000000003004811600000000000000000000407687500000000000000000000000003208782500000000000000000000407675000000000000000000000000003393725500000000000000000000407662500000000000000000000000003295068700000000000000000000407650000000000000000000000000003285594300000000000000000000407637500000000000000000000000003476031700000000000000000000407625000000000000000000000000003491428000000000000000000000407612500000000000000000000000003636266800000000000000000000407600000000000000000000000000003475220400000000000000000000407587500000000000000000000000003276981000000000000000000000407575000000000000000000000000003303314800000000000000000000407562500000000000000000000000003421693800000000000000000000407550000000000000000000000000003433650900000000000000000000407537500000000000000000000000003439038700000000000000000000407525000000000000000000000000003501676200000000000000000000407512500000000000000000000000003633183800000000000000000000407500000000000000000000000000003629064400000000000000000000407487500000000000000000000000003329460300000000000000000000407475000000000000000000000000003251348600000000000000000000407462500000000000000000000000003476170400000000000000000000407450000000000000000000000000003480482500000000000000000000407437500000000000000000000000003651945000000000000000000000407425000000000000000000000000003463776600000000000000000000407412500000000000000000000000003174790300000000000000000000407400000000000000000000,
    3553712000000000000000000000408987500000000000000000000000003697192900000000000000000000408975000000000000000000000000003666904300000000000000000000408962500000000000000000000000003508946100000000000000000000408950000000000000000000000000003412630600000000000000000000408937500000000000000000000000003517925700000000000000000000408925000000000000000000000000003420868400000000000000000000408912500000000000000000000000003510896600000000000000000000408900000000000000000000000000003694540600000000000000000000408887500000000000000000000000003521665000000000000000000000408875000000000000000000000000003497068000000000000000000000408862500000000000000000000000003403810700000000000000000000408850000000000000000000000000003620103500000000000000000000408837500000000000000000000000003488933400000000000000000000408825000000000000000000000000003478567900000000000000000000408812500000000000000000000000003796183400000000000000000000408800000000000000000000000000003743434800000000000000000000408787500000000000000000000000003697322600000000000000000000408775000000000000000000000000003619153300000000000000000000408762500000000000000000000000003253322400000000000000000000408750000000000000000000000000003383420900000000000000000000408737500000000000000000000000003460258700000000000000000000408725000000000000000000000000003563330600000000000000000000408712500000000000000000000000003558995500000000000000000000408700000000000000000000000000003460187200000000000000000000408687500000000000000000000000003352941600000000000000000000408675000000000000000000000000003371184600000000000000000000408662500000000000000000000000003311729100000000000000000000408650000000000000000000000000003307374900000000000000000000408637500000000000000000000000003343743500000000000000000000408625000000000000000000000000003069866900000000000000000000408612500000000000000000000000003390237300000000000000000000408600000000000000000000000000003639717100000000000000000000408587500000000000000000000000003651877100000000000000000000408575000000000000000000000000003599828600000000000000000000408562500000000000000000000000003572427900000000000000000000408550000000000000000000000000003699055100000000000000000000408537500000000000000000000000003928109600000000000000000000408525000000000000000000000000003786022700000000000000000000408512500000000000000000000000003462702500000000000000000000408500000000000000000000000000003453904500000000000000000000408487500000000000000000000000003589053700000000000000000000408475000000000000000000000000003451551900000000000000000000408462500000000000000000000000003442387300000000000000000000408450000000000000000000000000003622572900000000000000000000408437500000000000000000000000003650141700000000000000000000408425000000000000000000000000003569477200000000000000000000408412500000000000000000000000003340762800000000000000000000408400000000000000000000000000003525069300000000000000000000408387500000000000000000000000003606124400000000000000000000408375000000000000000000000000003361786100000000000000000000408362500000000000000000000000003564230700000000000000000000408350000000000000000000000000003588551900000000000000000000408337500000000000000000000000003207171600000000000000000000408325000000000000000000000000003236754500000000000000000000408312500000000000000000000000003460287500000000000000000000408300000000000000000000000000003505900300000000000000000000408287500000000000000000000000003755957300000000000000000000408275000000000000000000000000003613950800000000000000000000408262500000000000000000000000003679502800000000000000000000408250000000000000000000000000003731691500000000000000000000408237500000000000000000000000003736907200000000000000000000408225000000000000000000000000003700147800000000000000000000408212500000000000000000000000003450765600000000000000000000408200000000000000000000,
    3183394600000000000000000000409787500000000000000000000000003489638300000000000000000000409775000000000000000000000000003791690600000000000000000000409762500000000000000000000000003830214700000000000000000000409750000000000000000000000000003612094800000000000000000000409737500000000000000000000000003720769000000000000000000000409725000000000000000000000000003442293700000000000000000000409712500000000000000000000000003250097600000000000000000000409700000000000000000000000000003329308900000000000000000000409687500000000000000000000000003494550600000000000000000000409675000000000000000000000000003482610400000000000000000000409662500000000000000000000000003470937300000000000000000000409650000000000000000000000000003709664600000000000000000000409637500000000000000000000000003912148300000000000000000000409625000000000000000000000000003704710600000000000000000000409612500000000000000000000000003382090600000000000000000000409600000000000000000000000000003339828100000000000000000000409587500000000000000000000000003250320000000000000000000000409575000000000000000000000000003379826800000000000000000000409562500000000000000000000000003496371000000000000000000000409550000000000000000000000000003599150900000000000000000000409537500000000000000000000000003392154700000000000000000000409525000000000000000000000000003380509400000000000000000000409512500000000000000000000000003604545200000000000000000000409500000000000000000000000000003602498500000000000000000000409487500000000000000000000000003460178100000000000000000000409475000000000000000000000000003640281600000000000000000000409462500000000000000000000000003740667500000000000000000000409450000000000000000000000000003347144800000000000000000000409437500000000000000000000000003115533000000000000000000000409425000000000000000000000000003256078300000000000000000000409412500000000000000000000000003345277000000000000000000000409400000000000000000000000000003396754200000000000000000000409387500000000000000000000000003562227700000000000000000000409375000000000000000000000000003482351700000000000000000000409362500000000000000000000000003519096200000000000000000000409350000000000000000000000000003317819600000000000000000000409337500000000000000000000000003219515700000000000000000000409325000000000000000000000000003428641900000000000000000000409312500000000000000000000000003664251500000000000000000000409300000000000000000000000000003673029500000000000000000000409287500000000000000000000000003377211900000000000000000000409275000000000000000000000000003260697600000000000000000000409262500000000000000000000000003508932000000000000000000000409250000000000000000000000000003326610600000000000000000000409237500000000000000000000000003217968900000000000000000000409225000000000000000000000000003377819000000000000000000000409212500000000000000000000000003477463700000000000000000000409200000000000000000000000000003417133300000000000000000000409187500000000000000000000000003420899200000000000000000000409175000000000000000000000000003725497200000000000000000000409162500000000000000000000000003595428100000000000000000000409150000000000000000000000000003568050700000000000000000000409137500000000000000000000000003398072000000000000000000000409125000000000000000000000000003424868200000000000000000000409112500000000000000000000000003587922400000000000000000000409100000000000000000000000000003456152900000000000000000000409087500000000000000000000000003130295400000000000000000000409075000000000000000000000000003468634400000000000000000000409062500000000000000000000000003495369200000000000000000000409050000000000000000000000000003686436000000000000000000000409037500000000000000000000000003723399100000000000000000000409025000000000000000000000000003667828600000000000000000000409012500000000000000000000000003546608400000000000000000000409000000000000000000000,
    3229979800000000000000000000410587500000000000000000000000003444604700000000000000000000410575000000000000000000000000003586752400000000000000000000410562500000000000000000000000003736646600000000000000000000410550000000000000000000000000003604783900000000000000000000410537500000000000000000000000003410225700000000000000000000410525000000000000000000000000003379836000000000000000000000410512500000000000000000000000003428830900000000000000000000410500000000000000000000000000003568967700000000000000000000410487500000000000000000000000003550278800000000000000000000410475000000000000000000000000003424980000000000000000000000410462500000000000000000000000003301144500000000000000000000410450000000000000000000000000003325923900000000000000000000410437500000000000000000000000003621686000000000000000000000410425000000000000000000000000003688184200000000000000000000410412500000000000000000000000003270937400000000000000000000410400000000000000000000000000003459898800000000000000000000410387500000000000000000000000003684167500000000000000000000410375000000000000000000000000003736083400000000000000000000410362500000000000000000000000003772384900000000000000000000410350000000000000000000000000003616852200000000000000000000410337500000000000000000000000003552088900000000000000000000410325000000000000000000000000003475555500000000000000000000410312500000000000000000000000003350556800000000000000000000410300000000000000000000000000003424376700000000000000000000410287500000000000000000000000003501939300000000000000000000410275000000000000000000000000003525912100000000000000000000410262500000000000000000000000003417126600000000000000000000410250000000000000000000000000003513688000000000000000000000410237500000000000000000000000003651802500000000000000000000410225000000000000000000000000003558641800000000000000000000410212500000000000000000000000003343399400000000000000000000410200000000000000000000000000003251040800000000000000000000410187500000000000000000000000003641863300000000000000000000410175000000000000000000000000003527501400000000000000000000410162500000000000000000000000003508857800000000000000000000410150000000000000000000000000003495544700000000000000000000410137500000000000000000000000003190820900000000000000000000410125000000000000000000000000003563367500000000000000000000410112500000000000000000000000003945063500000000000000000000410100000000000000000000000000003777431600000000000000000000410087500000000000000000000000003663102200000000000000000000410075000000000000000000000000003571951100000000000000000000410062500000000000000000000000003632805000000000000000000000410050000000000000000000000000003551847800000000000000000000410037500000000000000000000000003425274800000000000000000000410025000000000000000000000000003496367600000000000000000000410012500000000000000000000000003470602400000000000000000000410000000000000000000000000000003449596500000000000000000000409987500000000000000000000000003326921100000000000000000000409975000000000000000000000000003223018200000000000000000000409962500000000000000000000000003497313600000000000000000000409950000000000000000000000000003629021000000000000000000000409937500000000000000000000000003804636900000000000000000000409925000000000000000000000000003606585800000000000000000000409912500000000000000000000000003391359400000000000000000000409900000000000000000000000000003624353600000000000000000000409887500000000000000000000000003563634700000000000000000000409875000000000000000000000000003449253800000000000000000000409862500000000000000000000000003602142800000000000000000000409850000000000000000000000000003338360200000000000000000000409837500000000000000000000000003217783600000000000000000000409825000000000000000000000000003432611200000000000000000000409812500000000000000000000000003366739100000000000000000000409800000000000000000000,
    3437433300000000000000000000411387500000000000000000000000003163252800000000000000000000411375000000000000000000000000003384679600000000000000000000411362500000000000000000000000003602621800000000000000000000411350000000000000000000000000003555815000000000000000000000411337500000000000000000000000003867337100000000000000000000411325000000000000000000000000003612683000000000000000000000411312500000000000000000000000003401085800000000000000000000411300000000000000000000000000003655840300000000000000000000411287500000000000000000000000003662140500000000000000000000411275000000000000000000000000003553152200000000000000000000411262500000000000000000000000003336137400000000000000000000411250000000000000000000000000003413115900000000000000000000411237500000000000000000000000003386848700000000000000000000411225000000000000000000000000003476167900000000000000000000411212500000000000000000000000003585878600000000000000000000411200000000000000000000000000003307587900000000000000000000411187500000000000000000000000003834223000000000000000000000411175000000000000000000000000003643965700000000000000000000411162500000000000000000000000003420120600000000000000000000411150000000000000000000000000003250429500000000000000000000411137500000000000000000000000003506425500000000000000000000411125000000000000000000000000003760391700000000000000000000411112500000000000000000000000003604053800000000000000000000411100000000000000000000000000003453438700000000000000000000411087500000000000000000000000003253227300000000000000000000411075000000000000000000000000003575235700000000000000000000411062500000000000000000000000003533708700000000000000000000411050000000000000000000000000003239498500000000000000000000411037500000000000000000000000003555123500000000000000000000411025000000000000000000000000003372982000000000000000000000411012500000000000000000000000003275829900000000000000000000411000000000000000000000000000003477093800000000000000000000410987500000000000000000000000003745543100000000000000000000410975000000000000000000000000003723541500000000000000000000410962500000000000000000000000003643198500000000000000000000410950000000000000000000000000003416855300000000000000000000410937500000000000000000000000003604956100000000000000000000410925000000000000000000000000003466506200000000000000000000410912500000000000000000000000003456013800000000000000000000410900000000000000000000000000003607374900000000000000000000410887500000000000000000000000003435433800000000000000000000410875000000000000000000000000003513143600000000000000000000410862500000000000000000000000003581490800000000000000000000410850000000000000000000000000003690240300000000000000000000410837500000000000000000000000003731996200000000000000000000410825000000000000000000000000003516199900000000000000000000410812500000000000000000000000003636001200000000000000000000410800000000000000000000000000003477792400000000000000000000410787500000000000000000000000003235318000000000000000000000410775000000000000000000000000003418229500000000000000000000410762500000000000000000000000003584365700000000000000000000410750000000000000000000000000003642925500000000000000000000410737500000000000000000000000003381339600000000000000000000410725000000000000000000000000003641347700000000000000000000410712500000000000000000000000003516690700000000000000000000410700000000000000000000000000003396236300000000000000000000410687500000000000000000000000003312208400000000000000000000410675000000000000000000000000003613835700000000000000000000410662500000000000000000000000003871841800000000000000000000410650000000000000000000000000003761004300000000000000000000410637500000000000000000000000003774521100000000000000000000410625000000000000000000000000003377344300000000000000000000410612500000000000000000000000003169050900000000000000000000410600000000000000000000,
    3797411200000000000000000000412187500000000000000000000000003612231300000000000000000000412175000000000000000000000000003336239300000000000000000000412162500000000000000000000000003389485000000000000000000000412150000000000000000000000000003231355400000000000000000000412137500000000000000000000000003527859900000000000000000000412125000000000000000000000000003520121600000000000000000000412112500000000000000000000000003750949500000000000000000000412100000000000000000000000000003654570100000000000000000000412087500000000000000000000000003450204000000000000000000000412075000000000000000000000000003504156100000000000000000000412062500000000000000000000000003521531900000000000000000000412050000000000000000000000000003615206100000000000000000000412037500000000000000000000000003420501800000000000000000000412025000000000000000000000000003664117900000000000000000000412012500000000000000000000000003764412400000000000000000000412000000000000000000000000000003791866400000000000000000000411987500000000000000000000000003633320000000000000000000000411975000000000000000000000000003448615400000000000000000000411962500000000000000000000000003504375700000000000000000000411950000000000000000000000000003267739100000000000000000000411937500000000000000000000000003246670900000000000000000000411925000000000000000000000000003539964300000000000000000000411912500000000000000000000000003860445600000000000000000000411900000000000000000000000000003768212500000000000000000000411887500000000000000000000000003622511300000000000000000000411875000000000000000000000000003719094400000000000000000000411862500000000000000000000000003657517100000000000000000000411850000000000000000000000000003642662800000000000000000000411837500000000000000000000000003235086200000000000000000000411825000000000000000000000000003270077900000000000000000000411812500000000000000000000000003283413200000000000000000000411800000000000000000000000000003369720900000000000000000000411787500000000000000000000000003410955100000000000000000000411775000000000000000000000000003484638400000000000000000000411762500000000000000000000000003608083400000000000000000000411750000000000000000000000000003494765000000000000000000000411737500000000000000000000000003497218500000000000000000000411725000000000000000000000000003529447800000000000000000000411712500000000000000000000000003347025400000000000000000000411700000000000000000000000000003616710800000000000000000000411687500000000000000000000000003516270500000000000000000000411675000000000000000000000000003508319500000000000000000000411662500000000000000000000000003577913400000000000000000000411650000000000000000000000000003556151500000000000000000000411637500000000000000000000000003449504500000000000000000000411625000000000000000000000000003395128600000000000000000000411612500000000000000000000000003410548100000000000000000000411600000000000000000000000000003643969900000000000000000000411587500000000000000000000000003441449800000000000000000000411575000000000000000000000000003295575500000000000000000000411562500000000000000000000000003516360900000000000000000000411550000000000000000000000000003596781800000000000000000000411537500000000000000000000000003743997000000000000000000000411525000000000000000000000000003734843500000000000000000000411512500000000000000000000000003830570800000000000000000000411500000000000000000000000000003856781000000000000000000000411487500000000000000000000000003957260600000000000000000000411475000000000000000000000000003833456500000000000000000000411462500000000000000000000000003692628900000000000000000000411450000000000000000000000000003647369700000000000000000000411437500000000000000000000000003569750700000000000000000000411425000000000000000000000000003497289800000000000000000000411412500000000000000000000000003543809700000000000000000000411400000000000000000000,
    3453469900000000000000000000412987500000000000000000000000003516540300000000000000000000412975000000000000000000000000003752164900000000000000000000412962500000000000000000000000003711721100000000000000000000412950000000000000000000000000003715933200000000000000000000412937500000000000000000000000003602105700000000000000000000412925000000000000000000000000003656946700000000000000000000412912500000000000000000000000003546231900000000000000000000412900000000000000000000000000003739866200000000000000000000412887500000000000000000000000003527895700000000000000000000412875000000000000000000000000003265899500000000000000000000412862500000000000000000000000003232856800000000000000000000412850000000000000000000000000003722262700000000000000000000412837500000000000000000000000003799323900000000000000000000412825000000000000000000000000003779847200000000000000000000412812500000000000000000000000003773279700000000000000000000412800000000000000000000000000003727934300000000000000000000412787500000000000000000000000003754067400000000000000000000412775000000000000000000000000003711919000000000000000000000412762500000000000000000000000003722411100000000000000000000412750000000000000000000000000003579753300000000000000000000412737500000000000000000000000003582402000000000000000000000412725000000000000000000000000003552309800000000000000000000412712500000000000000000000000003669750500000000000000000000412700000000000000000000000000003790813600000000000000000000412687500000000000000000000000003649350600000000000000000000412675000000000000000000000000003371034700000000000000000000412662500000000000000000000000003437040800000000000000000000412650000000000000000000000000003374812700000000000000000000412637500000000000000000000000003819247300000000000000000000412625000000000000000000000000003632089500000000000000000000412612500000000000000000000000003345058200000000000000000000412600000000000000000000000000003419856200000000000000000000412587500000000000000000000000003527283200000000000000000000412575000000000000000000000000003436544900000000000000000000412562500000000000000000000000003519307300000000000000000000412550000000000000000000000000003625610400000000000000000000412537500000000000000000000000003448867100000000000000000000412525000000000000000000000000003482736400000000000000000000412512500000000000000000000000003561123700000000000000000000412500000000000000000000000000003532690700000000000000000000412487500000000000000000000000003396629200000000000000000000412475000000000000000000000000003415690700000000000000000000412462500000000000000000000000003413487200000000000000000000412450000000000000000000000000003400843300000000000000000000412437500000000000000000000000003344348600000000000000000000412425000000000000000000000000003455019600000000000000000000412412500000000000000000000000003457891700000000000000000000412400000000000000000000000000003254443500000000000000000000412387500000000000000000000000003534705800000000000000000000412375000000000000000000000000003537597900000000000000000000412362500000000000000000000000003520247900000000000000000000412350000000000000000000000000003681735400000000000000000000412337500000000000000000000000003682882000000000000000000000412325000000000000000000000000003360540600000000000000000000412312500000000000000000000000003398165400000000000000000000412300000000000000000000000000003490333500000000000000000000412287500000000000000000000000003499364800000000000000000000412275000000000000000000000000003549124800000000000000000000412262500000000000000000000000003893575200000000000000000000412250000000000000000000000000003613267000000000000000000000412237500000000000000000000000003443047300000000000000000000412225000000000000000000000000003653056900000000000000000000412212500000000000000000000000003799241300000000000000000000412200000000000000000000,
    3784145900000000000000000000413787500000000000000000000000003897938800000000000000000000413775000000000000000000000000003742000500000000000000000000413762500000000000000000000000003322828900000000000000000000413750000000000000000000000000003419298100000000000000000000413737500000000000000000000000003740737300000000000000000000413725000000000000000000000000003643686500000000000000000000413712500000000000000000000000003424662300000000000000000000413700000000000000000000000000003610323700000000000000000000413687500000000000000000000000003468928300000000000000000000413675000000000000000000000000003419849800000000000000000000413662500000000000000000000000003457438200000000000000000000413650000000000000000000000000003543212400000000000000000000413637500000000000000000000000003403251900000000000000000000413625000000000000000000000000003226188900000000000000000000413612500000000000000000000000003357773200000000000000000000413600000000000000000000000000003164201000000000000000000000413587500000000000000000000000003455219600000000000000000000413575000000000000000000000000003119137800000000000000000000413562500000000000000000000000003276595800000000000000000000413550000000000000000000000000003817000500000000000000000000413537500000000000000000000000003780415800000000000000000000413525000000000000000000000000003687530600000000000000000000413512500000000000000000000000003816006200000000000000000000413500000000000000000000000000003548358100000000000000000000413487500000000000000000000000003595217400000000000000000000413475000000000000000000000000003838342600000000000000000000413462500000000000000000000000003637131200000000000000000000413450000000000000000000000000003529079400000000000000000000413437500000000000000000000000003565001700000000000000000000413425000000000000000000000000003384691000000000000000000000413412500000000000000000000000003464323500000000000000000000413400000000000000000000000000003743138100000000000000000000413387500000000000000000000000003640506500000000000000000000413375000000000000000000000000003378839700000000000000000000413362500000000000000000000000003152588100000000000000000000413350000000000000000000000000003225241700000000000000000000413337500000000000000000000000003633904100000000000000000000413325000000000000000000000000003536213600000000000000000000413312500000000000000000000000003433816300000000000000000000413300000000000000000000000000003473748600000000000000000000413287500000000000000000000000003640355100000000000000000000413275000000000000000000000000003679675900000000000000000000413262500000000000000000000000003631168400000000000000000000413250000000000000000000000000003443005500000000000000000000413237500000000000000000000000003569762300000000000000000000413225000000000000000000000000003458558800000000000000000000413212500000000000000000000000003477345600000000000000000000413200000000000000000000000000003537257600000000000000000000413187500000000000000000000000003579274700000000000000000000413175000000000000000000000000003632074100000000000000000000413162500000000000000000000000003574289000000000000000000000413150000000000000000000000000003739638300000000000000000000413137500000000000000000000000003808480800000000000000000000413125000000000000000000000000003356817400000000000000000000413112500000000000000000000000003413744100000000000000000000413100000000000000000000000000003797836900000000000000000000413087500000000000000000000000003740971500000000000000000000413075000000000000000000000000003699660100000000000000000000413062500000000000000000000000003678104100000000000000000000413050000000000000000000000000003675565200000000000000000000413037500000000000000000000000003663574600000000000000000000413025000000000000000000000000003495853600000000000000000000413012500000000000000000000000003630645400000000000000000000413000000000000000000000,
    3620046300000000000000000000414587500000000000000000000000003512494900000000000000000000414575000000000000000000000000003348135700000000000000000000414562500000000000000000000000003500713200000000000000000000414550000000000000000000000000003505566600000000000000000000414537500000000000000000000000003447952900000000000000000000414525000000000000000000000000003748811800000000000000000000414512500000000000000000000000003653222000000000000000000000414500000000000000000000000000003318974800000000000000000000414487500000000000000000000000003306293900000000000000000000414475000000000000000000000000003556296900000000000000000000414462500000000000000000000000003412122500000000000000000000414450000000000000000000000000003423117600000000000000000000414437500000000000000000000000003506442600000000000000000000414425000000000000000000000000003463433000000000000000000000414412500000000000000000000000003640250600000000000000000000414400000000000000000000000000003533469100000000000000000000414387500000000000000000000000003593301000000000000000000000414375000000000000000000000000003778255500000000000000000000414362500000000000000000000000003711841000000000000000000000414350000000000000000000000000003683298100000000000000000000414337500000000000000000000000003565030700000000000000000000414325000000000000000000000000003603465400000000000000000000414312500000000000000000000000003649170000000000000000000000414300000000000000000000000000003665186200000000000000000000414287500000000000000000000000003716364900000000000000000000414275000000000000000000000000003569275700000000000000000000414262500000000000000000000000003240963000000000000000000000414250000000000000000000000000003378598500000000000000000000414237500000000000000000000000003796850600000000000000000000414225000000000000000000000000003533038700000000000000000000414212500000000000000000000000003487987400000000000000000000414200000000000000000000000000003579858000000000000000000000414187500000000000000000000000003565767600000000000000000000414175000000000000000000000000003295325700000000000000000000414162500000000000000000000000003317313400000000000000000000414150000000000000000000000000003592110300000000000000000000414137500000000000000000000000003858687200000000000000000000414125000000000000000000000000003941603000000000000000000000414112500000000000000000000000003467495200000000000000000000414100000000000000000000000000003326866300000000000000000000414087500000000000000000000000003447944300000000000000000000414075000000000000000000000000003592626400000000000000000000414062500000000000000000000000003626210900000000000000000000414050000000000000000000000000003510561900000000000000000000414037500000000000000000000000003315931100000000000000000000414025000000000000000000000000003431074400000000000000000000414012500000000000000000000000003440118900000000000000000000414000000000000000000000000000003770914800000000000000000000413987500000000000000000000000004019782600000000000000000000413975000000000000000000000000003748361900000000000000000000413962500000000000000000000000003579566700000000000000000000413950000000000000000000000000003770709300000000000000000000413937500000000000000000000000003635428000000000000000000000413925000000000000000000000000003629575500000000000000000000413912500000000000000000000000003494039400000000000000000000413900000000000000000000000000003832301000000000000000000000413887500000000000000000000000003914864000000000000000000000413875000000000000000000000000003610182300000000000000000000413862500000000000000000000000003502235100000000000000000000413850000000000000000000000000003482351300000000000000000000413837500000000000000000000000003694086200000000000000000000413825000000000000000000000000003533362400000000000000000000413812500000000000000000000000003469792900000000000000000000413800000000000000000000,
    3588677800000000000000000000415387500000000000000000000000003715724300000000000000000000415375000000000000000000000000003403936100000000000000000000415362500000000000000000000000003224599300000000000000000000415350000000000000000000000000003462659200000000000000000000415337500000000000000000000000003503599200000000000000000000415325000000000000000000000000003560817300000000000000000000415312500000000000000000000000003700820900000000000000000000415300000000000000000000000000003571789400000000000000000000415287500000000000000000000000003532236800000000000000000000415275000000000000000000000000003479325400000000000000000000415262500000000000000000000000003502724600000000000000000000415250000000000000000000000000003687025100000000000000000000415237500000000000000000000000003648907500000000000000000000415225000000000000000000000000003698263100000000000000000000415212500000000000000000000000003520313200000000000000000000415200000000000000000000000000003367844900000000000000000000415187500000000000000000000000003539275900000000000000000000415175000000000000000000000000003492849100000000000000000000415162500000000000000000000000003368234000000000000000000000415150000000000000000000000000003248576800000000000000000000415137500000000000000000000000003093159700000000000000000000415125000000000000000000000000003567543800000000000000000000415112500000000000000000000000003675941800000000000000000000415100000000000000000000000000003629785400000000000000000000415087500000000000000000000000003422828600000000000000000000415075000000000000000000000000003414662100000000000000000000415062500000000000000000000000003357657700000000000000000000415050000000000000000000000000003363458500000000000000000000415037500000000000000000000000003647749500000000000000000000415025000000000000000000000000003379729100000000000000000000415012500000000000000000000000003178624500000000000000000000415000000000000000000000000000003163156200000000000000000000414987500000000000000000000000003124823300000000000000000000414975000000000000000000000000003281913100000000000000000000414962500000000000000000000000003461075200000000000000000000414950000000000000000000000000003604495800000000000000000000414937500000000000000000000000003607625500000000000000000000414925000000000000000000000000003623582700000000000000000000414912500000000000000000000000003696689100000000000000000000414900000000000000000000000000003797860000000000000000000000414887500000000000000000000000003504332300000000000000000000414875000000000000000000000000003890829900000000000000000000414862500000000000000000000000004142840000000000000000000000414850000000000000000000000000003750319000000000000000000000414837500000000000000000000000003546867400000000000000000000414825000000000000000000000000003645575000000000000000000000414812500000000000000000000000003464694900000000000000000000414800000000000000000000000000003273531100000000000000000000414787500000000000000000000000003565885200000000000000000000414775000000000000000000000000003284035800000000000000000000414762500000000000000000000000003162690500000000000000000000414750000000000000000000000000003514235600000000000000000000414737500000000000000000000000003587353800000000000000000000414725000000000000000000000000003597638200000000000000000000414712500000000000000000000000003722916200000000000000000000414700000000000000000000000000003620370200000000000000000000414687500000000000000000000000003487537400000000000000000000414675000000000000000000000000003790684500000000000000000000414662500000000000000000000000003951421800000000000000000000414650000000000000000000000000003627113000000000000000000000414637500000000000000000000000003277849500000000000000000000414625000000000000000000000000003605784000000000000000000000414612500000000000000000000000003744154800000000000000000000414600000000000000000000,
    3388959000000000000000000000416187500000000000000000000000003402082400000000000000000000416175000000000000000000000000003716540300000000000000000000416162500000000000000000000000003980610900000000000000000000416150000000000000000000000000003783315500000000000000000000416137500000000000000000000000003848160700000000000000000000416125000000000000000000000000004159247000000000000000000000416112500000000000000000000000003955644100000000000000000000416100000000000000000000000000003753107500000000000000000000416087500000000000000000000000003841515800000000000000000000416075000000000000000000000000003507793900000000000000000000416062500000000000000000000000003541415900000000000000000000416050000000000000000000000000003604882600000000000000000000416037500000000000000000000000003731744200000000000000000000416025000000000000000000000000003960509200000000000000000000416012500000000000000000000000003829521000000000000000000000416000000000000000000000000000003669247300000000000000000000415987500000000000000000000000003319023500000000000000000000415975000000000000000000000000003506562800000000000000000000415962500000000000000000000000004171684900000000000000000000415950000000000000000000000000004009786600000000000000000000415937500000000000000000000000003523106200000000000000000000415925000000000000000000000000003559007000000000000000000000415912500000000000000000000000003619862800000000000000000000415900000000000000000000000000003661482200000000000000000000415887500000000000000000000000003716021500000000000000000000415875000000000000000000000000003523388200000000000000000000415862500000000000000000000000003450036600000000000000000000415850000000000000000000000000003492015200000000000000000000415837500000000000000000000000003501444700000000000000000000415825000000000000000000000000003790135100000000000000000000415812500000000000000000000000003660841200000000000000000000415800000000000000000000000000003926684600000000000000000000415787500000000000000000000000003922881800000000000000000000415775000000000000000000000000003524276900000000000000000000415762500000000000000000000000003633651900000000000000000000415750000000000000000000000000003385615400000000000000000000415737500000000000000000000000003502477700000000000000000000415725000000000000000000000000003313131600000000000000000000415712500000000000000000000000003233650200000000000000000000415700000000000000000000000000003469555700000000000000000000415687500000000000000000000000003372979900000000000000000000415675000000000000000000000000003439887400000000000000000000415662500000000000000000000000003792486600000000000000000000415650000000000000000000000000003926226400000000000000000000415637500000000000000000000000003591152300000000000000000000415625000000000000000000000000003630927000000000000000000000415612500000000000000000000000003870831500000000000000000000415600000000000000000000000000003656103100000000000000000000415587500000000000000000000000003506564500000000000000000000415575000000000000000000000000003643290100000000000000000000415562500000000000000000000000003517687900000000000000000000415550000000000000000000000000003498691000000000000000000000415537500000000000000000000000003470886800000000000000000000415525000000000000000000000000003518557400000000000000000000415512500000000000000000000000002896662700000000000000000000415500000000000000000000000000003316182300000000000000000000415487500000000000000000000000003476904100000000000000000000415475000000000000000000000000003489895600000000000000000000415462500000000000000000000000003577125100000000000000000000415450000000000000000000000000003620014400000000000000000000415437500000000000000000000000003588859800000000000000000000415425000000000000000000000000003523483600000000000000000000415412500000000000000000000000003552485500000000000000000000415400000000000000000000,
    3658880600000000000000000000416987500000000000000000000000003685371800000000000000000000416975000000000000000000000000003689801200000000000000000000416962500000000000000000000000003659066400000000000000000000416950000000000000000000000000003621828500000000000000000000416937500000000000000000000000003639885500000000000000000000416925000000000000000000000000003526321700000000000000000000416912500000000000000000000000003364572700000000000000000000416900000000000000000000000000003278673200000000000000000000416887500000000000000000000000003672047900000000000000000000416875000000000000000000000000003576133800000000000000000000416862500000000000000000000000003564820200000000000000000000416850000000000000000000000000003620713800000000000000000000416837500000000000000000000000003754725600000000000000000000416825000000000000000000000000003665898500000000000000000000416812500000000000000000000000003849197500000000000000000000416800000000000000000000000000003699288200000000000000000000416787500000000000000000000000003635512400000000000000000000416775000000000000000000000000003612267000000000000000000000416762500000000000000000000000003589977900000000000000000000416750000000000000000000000000003463695800000000000000000000416737500000000000000000000000003392636000000000000000000000416725000000000000000000000000003216964300000000000000000000416712500000000000000000000000003319554700000000000000000000416700000000000000000000000000003518853100000000000000000000416687500000000000000000000000003584866800000000000000000000416675000000000000000000000000003744953700000000000000000000416662500000000000000000000000003555415800000000000000000000416650000000000000000000000000003292124000000000000000000000416637500000000000000000000000003233006500000000000000000000416625000000000000000000000000003484025100000000000000000000416612500000000000000000000000003696866900000000000000000000416600000000000000000000000000003563587400000000000000000000416587500000000000000000000000003431784000000000000000000000416575000000000000000000000000003634402300000000000000000000416562500000000000000000000000003814808000000000000000000000416550000000000000000000000000003767073000000000000000000000416537500000000000000000000000003653165500000000000000000000416525000000000000000000000000003727640400000000000000000000416512500000000000000000000000003733570900000000000000000000416500000000000000000000000000003451102100000000000000000000416487500000000000000000000000003556135600000000000000000000416475000000000000000000000000003456997000000000000000000000416462500000000000000000000000003368200000000000000000000000416450000000000000000000000000003296372000000000000000000000416437500000000000000000000000003481371200000000000000000000416425000000000000000000000000003483304800000000000000000000416412500000000000000000000000003405485000000000000000000000416400000000000000000000000000003454346600000000000000000000416387500000000000000000000000003415482900000000000000000000416375000000000000000000000000003429469000000000000000000000416362500000000000000000000000003603722700000000000000000000416350000000000000000000000000003725121000000000000000000000416337500000000000000000000000003752402200000000000000000000416325000000000000000000000000003733724800000000000000000000416312500000000000000000000000003443851300000000000000000000416300000000000000000000000000003401593100000000000000000000416287500000000000000000000000003907000900000000000000000000416275000000000000000000000000003939085300000000000000000000416262500000000000000000000000003544027900000000000000000000416250000000000000000000000000003554898200000000000000000000416237500000000000000000000000003644447700000000000000000000416225000000000000000000000000003707030500000000000000000000416212500000000000000000000000003644236000000000000000000000416200000000000000000000,
    3396587600000000000000000000417787500000000000000000000000003349371500000000000000000000417775000000000000000000000000003445004700000000000000000000417762500000000000000000000000003575293000000000000000000000417750000000000000000000000000003864245800000000000000000000417737500000000000000000000000003761072900000000000000000000417725000000000000000000000000003739536800000000000000000000417712500000000000000000000000003375741300000000000000000000417700000000000000000000000000003215920700000000000000000000417687500000000000000000000000003405709400000000000000000000417675000000000000000000000000003767620200000000000000000000417662500000000000000000000000003915403300000000000000000000417650000000000000000000000000003482718900000000000000000000417637500000000000000000000000003443205300000000000000000000417625000000000000000000000000003675326400000000000000000000417612500000000000000000000000003766906200000000000000000000417600000000000000000000000000003810647800000000000000000000417587500000000000000000000000003405439500000000000000000000417575000000000000000000000000003600320200000000000000000000417562500000000000000000000000003713407300000000000000000000417550000000000000000000000000003918936400000000000000000000417537500000000000000000000000003885550200000000000000000000417525000000000000000000000000003824305200000000000000000000417512500000000000000000000000003446317000000000000000000000417500000000000000000000000000003591072400000000000000000000417487500000000000000000000000003700133400000000000000000000417475000000000000000000000000003712876000000000000000000000417462500000000000000000000000004008832000000000000000000000417450000000000000000000000000003694659400000000000000000000417437500000000000000000000000003702007800000000000000000000417425000000000000000000000000003453808800000000000000000000417412500000000000000000000000003277447200000000000000000000417400000000000000000000000000003186991400000000000000000000417387500000000000000000000000003313597000000000000000000000417375000000000000000000000000003459320400000000000000000000417362500000000000000000000000003591999000000000000000000000417350000000000000000000000000003648997900000000000000000000417337500000000000000000000000003706245400000000000000000000417325000000000000000000000000003866455800000000000000000000417312500000000000000000000000003667414600000000000000000000417300000000000000000000000000003457094800000000000000000000417287500000000000000000000000003594077300000000000000000000417275000000000000000000000000003569933000000000000000000000417262500000000000000000000000003682976400000000000000000000417250000000000000000000000000003746339200000000000000000000417237500000000000000000000000003770316200000000000000000000417225000000000000000000000000003557911800000000000000000000417212500000000000000000000000004000265400000000000000000000417200000000000000000000000000003803249800000000000000000000417187500000000000000000000000003625466000000000000000000000417175000000000000000000000000003867827700000000000000000000417162500000000000000000000000003613864400000000000000000000417150000000000000000000000000003481105700000000000000000000417137500000000000000000000000003671830800000000000000000000417125000000000000000000000000003883098700000000000000000000417112500000000000000000000000004073781600000000000000000000417100000000000000000000000000003996116500000000000000000000417087500000000000000000000000003932520000000000000000000000417075000000000000000000000000003964719600000000000000000000417062500000000000000000000000004072011800000000000000000000417050000000000000000000000000003793683200000000000000000000417037500000000000000000000000003569984900000000000000000000417025000000000000000000000000003496109500000000000000000000417012500000000000000000000000003703817000000000000000000000417000000000000000000000,
    3794040600000000000000000000418587500000000000000000000000003851329700000000000000000000418575000000000000000000000000003931953800000000000000000000418562500000000000000000000000003763999200000000000000000000418550000000000000000000000000003642887100000000000000000000418537500000000000000000000000003492466400000000000000000000418525000000000000000000000000003712169000000000000000000000418512500000000000000000000000003945893300000000000000000000418500000000000000000000000000003748119200000000000000000000418487500000000000000000000000003520597500000000000000000000418475000000000000000000000000003715694400000000000000000000418462500000000000000000000000003875034800000000000000000000418450000000000000000000000000003664937200000000000000000000418437500000000000000000000000003688988400000000000000000000418425000000000000000000000000003722101700000000000000000000418412500000000000000000000000003941522400000000000000000000418400000000000000000000000000003791054600000000000000000000418387500000000000000000000000003592606700000000000000000000418375000000000000000000000000003694177000000000000000000000418362500000000000000000000000003613035500000000000000000000418350000000000000000000000000003637378200000000000000000000418337500000000000000000000000003561964500000000000000000000418325000000000000000000000000003920786200000000000000000000418312500000000000000000000000004240092200000000000000000000418300000000000000000000000000004160007800000000000000000000418287500000000000000000000000003829128200000000000000000000418275000000000000000000000000003563981600000000000000000000418262500000000000000000000000003884867500000000000000000000418250000000000000000000000000003590435700000000000000000000418237500000000000000000000000003708990500000000000000000000418225000000000000000000000000003691627800000000000000000000418212500000000000000000000000003464374100000000000000000000418200000000000000000000000000003616976300000000000000000000418187500000000000000000000000003578060900000000000000000000418175000000000000000000000000003562058500000000000000000000418162500000000000000000000000003781266900000000000000000000418150000000000000000000000000003512551100000000000000000000418137500000000000000000000000003378909500000000000000000000418125000000000000000000000000003517195900000000000000000000418112500000000000000000000000004059946700000000000000000000418100000000000000000000000000003849332600000000000000000000418087500000000000000000000000003837087000000000000000000000418075000000000000000000000000003817041900000000000000000000418062500000000000000000000000003692912900000000000000000000418050000000000000000000000000003757302200000000000000000000418037500000000000000000000000003619893100000000000000000000418025000000000000000000000000003515763700000000000000000000418012500000000000000000000000003592489500000000000000000000418000000000000000000000000000003961484400000000000000000000417987500000000000000000000000004339949700000000000000000000417975000000000000000000000000003934202500000000000000000000417962500000000000000000000000003633276900000000000000000000417950000000000000000000000000003892606100000000000000000000417937500000000000000000000000003875569300000000000000000000417925000000000000000000000000003524858000000000000000000000417912500000000000000000000000003561537900000000000000000000417900000000000000000000000000003902914900000000000000000000417887500000000000000000000000003781319600000000000000000000417875000000000000000000000000003548350500000000000000000000417862500000000000000000000000003597134700000000000000000000417850000000000000000000000000003595667000000000000000000000417837500000000000000000000000003597511200000000000000000000417825000000000000000000000000003386923500000000000000000000417812500000000000000000000000003176330500000000000000000000417800000000000000000000,
    3665155700000000000000000000419387500000000000000000000000003452717600000000000000000000419375000000000000000000000000003521265100000000000000000000419362500000000000000000000000003938544300000000000000000000419350000000000000000000000000003813042400000000000000000000419337500000000000000000000000003842721000000000000000000000419325000000000000000000000000003575536900000000000000000000419312500000000000000000000000003633258000000000000000000000419300000000000000000000000000003866081000000000000000000000419287500000000000000000000000003513795500000000000000000000419275000000000000000000000000003621402200000000000000000000419262500000000000000000000000003779186400000000000000000000419250000000000000000000000000003807738200000000000000000000419237500000000000000000000000003460941200000000000000000000419225000000000000000000000000003884860300000000000000000000419212500000000000000000000000003935104200000000000000000000419200000000000000000000000000004011635900000000000000000000419187500000000000000000000000003869740700000000000000000000419175000000000000000000000000003917019900000000000000000000419162500000000000000000000000004011237900000000000000000000419150000000000000000000000000003636957800000000000000000000419137500000000000000000000000003713941700000000000000000000419125000000000000000000000000003681816800000000000000000000419112500000000000000000000000003573477600000000000000000000419100000000000000000000000000004004408400000000000000000000419087500000000000000000000000003822315000000000000000000000419075000000000000000000000000003757577600000000000000000000419062500000000000000000000000003967562100000000000000000000419050000000000000000000000000004073978600000000000000000000419037500000000000000000000000003688833900000000000000000000419025000000000000000000000000003397417300000000000000000000419012500000000000000000000000003234140700000000000000000000419000000000000000000000000000003504533000000000000000000000418987500000000000000000000000003308800500000000000000000000418975000000000000000000000000003234292000000000000000000000418962500000000000000000000000003296761500000000000000000000418950000000000000000000000000003945435200000000000000000000418937500000000000000000000000003645949700000000000000000000418925000000000000000000000000003785494000000000000000000000418912500000000000000000000000003876204200000000000000000000418900000000000000000000000000003812230300000000000000000000418887500000000000000000000000003881573000000000000000000000418875000000000000000000000000003747948000000000000000000000418862500000000000000000000000003797814000000000000000000000418850000000000000000000000000004013745000000000000000000000418837500000000000000000000000003905282800000000000000000000418825000000000000000000000000003435894100000000000000000000418812500000000000000000000000003687515200000000000000000000418800000000000000000000000000003793341400000000000000000000418787500000000000000000000000003452882000000000000000000000418775000000000000000000000000003394360900000000000000000000418762500000000000000000000000003341175800000000000000000000418750000000000000000000000000003757047400000000000000000000418737500000000000000000000000003724019500000000000000000000418725000000000000000000000000003652159900000000000000000000418712500000000000000000000000003695399300000000000000000000418700000000000000000000000000003701810400000000000000000000418687500000000000000000000000003734270100000000000000000000418675000000000000000000000000003898591400000000000000000000418662500000000000000000000000003728254800000000000000000000418650000000000000000000000000003692463600000000000000000000418637500000000000000000000000003877261900000000000000000000418625000000000000000000000000003788595500000000000000000000418612500000000000000000000000003580405600000000000000000000418600000000000000000000,
    3912268800000000000000000000420187500000000000000000000000003716271700000000000000000000420175000000000000000000000000003530924900000000000000000000420162500000000000000000000000003701982600000000000000000000420150000000000000000000000000003753284400000000000000000000420137500000000000000000000000003792891900000000000000000000420125000000000000000000000000003923665900000000000000000000420112500000000000000000000000003703667400000000000000000000420100000000000000000000000000003563473000000000000000000000420087500000000000000000000000003278835300000000000000000000420075000000000000000000000000003534508700000000000000000000420062500000000000000000000000003704372000000000000000000000420050000000000000000000000000003863389800000000000000000000420037500000000000000000000000003899858600000000000000000000420025000000000000000000000000003690342500000000000000000000420012500000000000000000000000003559157400000000000000000000420000000000000000000000000000003597636200000000000000000000419987500000000000000000000000003580030100000000000000000000419975000000000000000000000000003525110100000000000000000000419962500000000000000000000000003549576900000000000000000000419950000000000000000000000000003619242300000000000000000000419937500000000000000000000000003610764800000000000000000000419925000000000000000000000000003934361000000000000000000000419912500000000000000000000000003636681900000000000000000000419900000000000000000000000000003483673900000000000000000000419887500000000000000000000000003688487100000000000000000000419875000000000000000000000000003513961700000000000000000000419862500000000000000000000000003770162600000000000000000000419850000000000000000000000000003878783700000000000000000000419837500000000000000000000000003778420600000000000000000000419825000000000000000000000000003649673300000000000000000000419812500000000000000000000000003791905400000000000000000000419800000000000000000000000000003778078000000000000000000000419787500000000000000000000000003794272700000000000000000000419775000000000000000000000000003659643200000000000000000000419762500000000000000000000000003512057000000000000000000000419750000000000000000000000000003501730000000000000000000000419737500000000000000000000000003819379600000000000000000000419725000000000000000000000000004018158000000000000000000000419712500000000000000000000000003961979300000000000000000000419700000000000000000000000000003490510000000000000000000000419687500000000000000000000000003388633600000000000000000000419675000000000000000000000000003612448600000000000000000000419662500000000000000000000000003932557800000000000000000000419650000000000000000000000000003778457200000000000000000000419637500000000000000000000000003508206200000000000000000000419625000000000000000000000000003300882900000000000000000000419612500000000000000000000000003652882400000000000000000000419600000000000000000000000000003793247600000000000000000000419587500000000000000000000000003954849700000000000000000000419575000000000000000000000000003955678600000000000000000000419562500000000000000000000000003752175100000000000000000000419550000000000000000000000000003693078200000000000000000000419537500000000000000000000000003674299600000000000000000000419525000000000000000000000000003773413500000000000000000000419512500000000000000000000000003592180900000000000000000000419500000000000000000000000000003500717400000000000000000000419487500000000000000000000000003794809300000000000000000000419475000000000000000000000000003822331100000000000000000000419462500000000000000000000000003658065500000000000000000000419450000000000000000000000000003827701300000000000000000000419437500000000000000000000000003738149800000000000000000000419425000000000000000000000000003480778900000000000000000000419412500000000000000000000000003479734000000000000000000000419400000000000000000000,
    3354873400000000000000000000420987500000000000000000000000003623666900000000000000000000420975000000000000000000000000003624766400000000000000000000420962500000000000000000000000003703942100000000000000000000420950000000000000000000000000003714617800000000000000000000420937500000000000000000000000003785634300000000000000000000420925000000000000000000000000003510217300000000000000000000420912500000000000000000000000003639370900000000000000000000420900000000000000000000000000003673134300000000000000000000420887500000000000000000000000003687006300000000000000000000420875000000000000000000000000003550567700000000000000000000420862500000000000000000000000003570192600000000000000000000420850000000000000000000000000003690176600000000000000000000420837500000000000000000000000003611458900000000000000000000420825000000000000000000000000003769324600000000000000000000420812500000000000000000000000003662281200000000000000000000420800000000000000000000000000003613308300000000000000000000420787500000000000000000000000003715070200000000000000000000420775000000000000000000000000003818828300000000000000000000420762500000000000000000000000003761988000000000000000000000420750000000000000000000000000003986548400000000000000000000420737500000000000000000000000003919661000000000000000000000420725000000000000000000000000003447035700000000000000000000420712500000000000000000000000003551643600000000000000000000420700000000000000000000000000004012173100000000000000000000420687500000000000000000000000003882890100000000000000000000420675000000000000000000000000004101317000000000000000000000420662500000000000000000000000004202167900000000000000000000420650000000000000000000000000003749663100000000000000000000420637500000000000000000000000003409069400000000000000000000420625000000000000000000000000003513802300000000000000000000420612500000000000000000000000003380153800000000000000000000420600000000000000000000000000003351599100000000000000000000420587500000000000000000000000003422133000000000000000000000420575000000000000000000000000003621352700000000000000000000420562500000000000000000000000003697572500000000000000000000420550000000000000000000000000003636530900000000000000000000420537500000000000000000000000003641735000000000000000000000420525000000000000000000000000003740764700000000000000000000420512500000000000000000000000003952439400000000000000000000420500000000000000000000000000004074072100000000000000000000420487500000000000000000000000003794782900000000000000000000420475000000000000000000000000003472706500000000000000000000420462500000000000000000000000003778564400000000000000000000420450000000000000000000000000003651717800000000000000000000420437500000000000000000000000003615141500000000000000000000420425000000000000000000000000003933891200000000000000000000420412500000000000000000000000003821050600000000000000000000420400000000000000000000000000003677354700000000000000000000420387500000000000000000000000003627507000000000000000000000420375000000000000000000000000003923537200000000000000000000420362500000000000000000000000003451956000000000000000000000420350000000000000000000000000003307551000000000000000000000420337500000000000000000000000003584855900000000000000000000420325000000000000000000000000003674175000000000000000000000420312500000000000000000000000003528183600000000000000000000420300000000000000000000000000003631649800000000000000000000420287500000000000000000000000003747399500000000000000000000420275000000000000000000000000003449164800000000000000000000420262500000000000000000000000003477779500000000000000000000420250000000000000000000000000003446351400000000000000000000420237500000000000000000000000003592079000000000000000000000420225000000000000000000000000003727333800000000000000000000420212500000000000000000000000003759598800000000000000000000420200000000000000000000,
    3531610200000000000000000000421787500000000000000000000000003681088800000000000000000000421775000000000000000000000000003615976900000000000000000000421762500000000000000000000000003698388700000000000000000000421750000000000000000000000000003927063700000000000000000000421737500000000000000000000000003904691200000000000000000000421725000000000000000000000000003612418000000000000000000000421712500000000000000000000000003524636400000000000000000000421700000000000000000000000000003870480700000000000000000000421687500000000000000000000000004018848000000000000000000000421675000000000000000000000000003812422000000000000000000000421662500000000000000000000000003634106300000000000000000000421650000000000000000000000000003539739600000000000000000000421637500000000000000000000000003518494200000000000000000000421625000000000000000000000000003753875200000000000000000000421612500000000000000000000000003771454900000000000000000000421600000000000000000000000000003909823800000000000000000000421587500000000000000000000000004054984300000000000000000000421575000000000000000000000000004057842500000000000000000000421562500000000000000000000000003992354600000000000000000000421550000000000000000000000000003823065100000000000000000000421537500000000000000000000000003393744200000000000000000000421525000000000000000000000000003737126400000000000000000000421512500000000000000000000000003659571300000000000000000000421500000000000000000000000000003695202200000000000000000000421487500000000000000000000000003705772900000000000000000000421475000000000000000000000000003864372300000000000000000000421462500000000000000000000000003914182900000000000000000000421450000000000000000000000000003470476900000000000000000000421437500000000000000000000000003415776300000000000000000000421425000000000000000000000000004010337000000000000000000000421412500000000000000000000000003818374300000000000000000000421400000000000000000000000000003514389500000000000000000000421387500000000000000000000000003819959100000000000000000000421375000000000000000000000000003653811900000000000000000000421362500000000000000000000000003588018000000000000000000000421350000000000000000000000000003552549500000000000000000000421337500000000000000000000000003805488300000000000000000000421325000000000000000000000000003962358100000000000000000000421312500000000000000000000000004024261700000000000000000000421300000000000000000000000000003704328000000000000000000000421287500000000000000000000000003728550900000000000000000000421275000000000000000000000000003677384700000000000000000000421262500000000000000000000000003388591200000000000000000000421250000000000000000000000000003485907500000000000000000000421237500000000000000000000000003840696000000000000000000000421225000000000000000000000000003694721900000000000000000000421212500000000000000000000000003696767100000000000000000000421200000000000000000000000000003457369500000000000000000000421187500000000000000000000000003385546000000000000000000000421175000000000000000000000000003698349700000000000000000000421162500000000000000000000000003695256900000000000000000000421150000000000000000000000000003639885000000000000000000000421137500000000000000000000000003720452200000000000000000000421125000000000000000000000000004037146500000000000000000000421112500000000000000000000000003968644400000000000000000000421100000000000000000000000000003539713300000000000000000000421087500000000000000000000000003820471200000000000000000000421075000000000000000000000000004108916000000000000000000000421062500000000000000000000000003857778100000000000000000000421050000000000000000000000000003566137600000000000000000000421037500000000000000000000000003504959900000000000000000000421025000000000000000000000000003397724700000000000000000000421012500000000000000000000000003320923200000000000000000000421000000000000000000000,
    3653762100000000000000000000422587500000000000000000000000003817634600000000000000000000422575000000000000000000000000003910145000000000000000000000422562500000000000000000000000003535675500000000000000000000422550000000000000000000000000003684104700000000000000000000422537500000000000000000000000003909952100000000000000000000422525000000000000000000000000003727560400000000000000000000422512500000000000000000000000003893867100000000000000000000422500000000000000000000000000003755644200000000000000000000422487500000000000000000000000003741482700000000000000000000422475000000000000000000000000003593710500000000000000000000422462500000000000000000000000003399741400000000000000000000422450000000000000000000000000003349599400000000000000000000422437500000000000000000000000003645775900000000000000000000422425000000000000000000000000003784498500000000000000000000422412500000000000000000000000003953821200000000000000000000422400000000000000000000000000003794924900000000000000000000422387500000000000000000000000003483610400000000000000000000422375000000000000000000000000003634767600000000000000000000422362500000000000000000000000003385333100000000000000000000422350000000000000000000000000003459283400000000000000000000422337500000000000000000000000003584659100000000000000000000422325000000000000000000000000003839442100000000000000000000422312500000000000000000000000003851149400000000000000000000422300000000000000000000000000004026615300000000000000000000422287500000000000000000000000003701721500000000000000000000422275000000000000000000000000003433453600000000000000000000422262500000000000000000000000003449157100000000000000000000422250000000000000000000000000003430684200000000000000000000422237500000000000000000000000003225368400000000000000000000422225000000000000000000000000003520184600000000000000000000422212500000000000000000000000003603494700000000000000000000422200000000000000000000000000003583575900000000000000000000422187500000000000000000000000003589289500000000000000000000422175000000000000000000000000003874780200000000000000000000422162500000000000000000000000003900861000000000000000000000422150000000000000000000000000003888049800000000000000000000422137500000000000000000000000003719257500000000000000000000422125000000000000000000000000003484493600000000000000000000422112500000000000000000000000003578383400000000000000000000422100000000000000000000000000003776109300000000000000000000422087500000000000000000000000003541621700000000000000000000422075000000000000000000000000003460390700000000000000000000422062500000000000000000000000003666671600000000000000000000422050000000000000000000000000003914863100000000000000000000422037500000000000000000000000003611804400000000000000000000422025000000000000000000000000003734961500000000000000000000422012500000000000000000000000003677185600000000000000000000422000000000000000000000000000003771216300000000000000000000421987500000000000000000000000003837764800000000000000000000421975000000000000000000000000003912750700000000000000000000421962500000000000000000000000003623054900000000000000000000421950000000000000000000000000003596345400000000000000000000421937500000000000000000000000003612664700000000000000000000421925000000000000000000000000003674996300000000000000000000421912500000000000000000000000003705364300000000000000000000421900000000000000000000000000003517918200000000000000000000421887500000000000000000000000003215973700000000000000000000421875000000000000000000000000003462741900000000000000000000421862500000000000000000000000003443890400000000000000000000421850000000000000000000000000003553505600000000000000000000421837500000000000000000000000003726366800000000000000000000421825000000000000000000000000003952435900000000000000000000421812500000000000000000000000003680220500000000000000000000421800000000000000000000,
    3568889500000000000000000000423387500000000000000000000000003288826200000000000000000000423375000000000000000000000000003709998400000000000000000000423362500000000000000000000000003888784500000000000000000000423350000000000000000000000000003807571200000000000000000000423337500000000000000000000000003395707200000000000000000000423325000000000000000000000000003697822200000000000000000000423312500000000000000000000000003943597700000000000000000000423300000000000000000000000000003779243500000000000000000000423287500000000000000000000000003513610100000000000000000000423275000000000000000000000000003482875700000000000000000000423262500000000000000000000000003544279700000000000000000000423250000000000000000000000000003556783700000000000000000000423237500000000000000000000000004798109200000000000000000000423225000000000000000000000000005649892800000000000000000000423212500000000000000000000000003900798600000000000000000000423200000000000000000000000000003594315000000000000000000000423187500000000000000000000000003725336300000000000000000000423175000000000000000000000000003849489700000000000000000000423162500000000000000000000000003990464600000000000000000000423150000000000000000000000000005529164000000000000000000000423137500000000000000000000000005646840200000000000000000000423125000000000000000000000000003910659600000000000000000000423112500000000000000000000000003851457600000000000000000000423100000000000000000000000000003735314600000000000000000000423087500000000000000000000000003760120500000000000000000000423075000000000000000000000000003438540000000000000000000000423062500000000000000000000000003628264600000000000000000000423050000000000000000000000000003712547500000000000000000000423037500000000000000000000000003502680900000000000000000000423025000000000000000000000000003634247000000000000000000000423012500000000000000000000000004006016300000000000000000000423000000000000000000000000000003782466500000000000000000000422987500000000000000000000000003677286900000000000000000000422975000000000000000000000000003420927400000000000000000000422962500000000000000000000000003373788400000000000000000000422950000000000000000000000000003623710300000000000000000000422937500000000000000000000000003347544000000000000000000000422925000000000000000000000000003511145300000000000000000000422912500000000000000000000000003950277900000000000000000000422900000000000000000000000000003711000600000000000000000000422887500000000000000000000000003738298300000000000000000000422875000000000000000000000000003640076000000000000000000000422862500000000000000000000000003858414100000000000000000000422850000000000000000000000000003877599600000000000000000000422837500000000000000000000000003885380700000000000000000000422825000000000000000000000000003936264600000000000000000000422812500000000000000000000000003969521400000000000000000000422800000000000000000000000000004036217300000000000000000000422787500000000000000000000000003846146400000000000000000000422775000000000000000000000000003501271900000000000000000000422762500000000000000000000000003704409700000000000000000000422750000000000000000000000000003753021300000000000000000000422737500000000000000000000000003815073400000000000000000000422725000000000000000000000000004168881800000000000000000000422712500000000000000000000000003786068000000000000000000000422700000000000000000000000000003405380500000000000000000000422687500000000000000000000000003494782200000000000000000000422675000000000000000000000000003622147800000000000000000000422662500000000000000000000000003733759800000000000000000000422650000000000000000000000000003801177500000000000000000000422637500000000000000000000000003935318200000000000000000000422625000000000000000000000000003715044300000000000000000000422612500000000000000000000000003792411200000000000000000000422600000000000000000000,
    3308114900000000000000000000424187500000000000000000000000003451882000000000000000000000424175000000000000000000000000003741775100000000000000000000424162500000000000000000000000003475011000000000000000000000424150000000000000000000000000003611912800000000000000000000424137500000000000000000000000003907883400000000000000000000424125000000000000000000000000003656180600000000000000000000424112500000000000000000000000003715457200000000000000000000424100000000000000000000000000003821679100000000000000000000424087500000000000000000000000003858379500000000000000000000424075000000000000000000000000004080192400000000000000000000424062500000000000000000000000004076431500000000000000000000424050000000000000000000000000003888620700000000000000000000424037500000000000000000000000003755931600000000000000000000424025000000000000000000000000003468078800000000000000000000424012500000000000000000000000003905686900000000000000000000424000000000000000000000000000004015703400000000000000000000423987500000000000000000000000003580264700000000000000000000423975000000000000000000000000003590672800000000000000000000423962500000000000000000000000003613834000000000000000000000423950000000000000000000000000003630374500000000000000000000423937500000000000000000000000003796676300000000000000000000423925000000000000000000000000003592993300000000000000000000423912500000000000000000000000003688954100000000000000000000423900000000000000000000000000003791793100000000000000000000423887500000000000000000000000003833750300000000000000000000423875000000000000000000000000003946260600000000000000000000423862500000000000000000000000003674097500000000000000000000423850000000000000000000000000003561967400000000000000000000423837500000000000000000000000003227828600000000000000000000423825000000000000000000000000003301665100000000000000000000423812500000000000000000000000003464206800000000000000000000423800000000000000000000000000003767399800000000000000000000423787500000000000000000000000003773314000000000000000000000423775000000000000000000000000003916639800000000000000000000423762500000000000000000000000003825506500000000000000000000423750000000000000000000000000003766049000000000000000000000423737500000000000000000000000003819373400000000000000000000423725000000000000000000000000003676324200000000000000000000423712500000000000000000000000004119320700000000000000000000423700000000000000000000000000004228918000000000000000000000423687500000000000000000000000003929677200000000000000000000423675000000000000000000000000003587649500000000000000000000423662500000000000000000000000003631629100000000000000000000423650000000000000000000000000003799018500000000000000000000423637500000000000000000000000003633557100000000000000000000423625000000000000000000000000003617351500000000000000000000423612500000000000000000000000003779215700000000000000000000423600000000000000000000000000003685025000000000000000000000423587500000000000000000000000003716690600000000000000000000423575000000000000000000000000003581029900000000000000000000423562500000000000000000000000003465320600000000000000000000423550000000000000000000000000003693905500000000000000000000423537500000000000000000000000003585810000000000000000000000423525000000000000000000000000003575694100000000000000000000423512500000000000000000000000003662512600000000000000000000423500000000000000000000000000003680851800000000000000000000423487500000000000000000000000003911127800000000000000000000423475000000000000000000000000004013920700000000000000000000423462500000000000000000000000003931240400000000000000000000423450000000000000000000000000003860728900000000000000000000423437500000000000000000000000003597591800000000000000000000423425000000000000000000000000003526296900000000000000000000423412500000000000000000000000003813783700000000000000000000423400000000000000000000,
    3893860900000000000000000000424987500000000000000000000000003807531900000000000000000000424975000000000000000000000000003360756700000000000000000000424962500000000000000000000000003765921200000000000000000000424950000000000000000000000000003535433600000000000000000000424937500000000000000000000000003468740000000000000000000000424925000000000000000000000000003372546800000000000000000000424912500000000000000000000000003530672500000000000000000000424900000000000000000000000000003876088300000000000000000000424887500000000000000000000000003961946400000000000000000000424875000000000000000000000000003958488500000000000000000000424862500000000000000000000000003713434200000000000000000000424850000000000000000000000000003651639200000000000000000000424837500000000000000000000000003472342500000000000000000000424825000000000000000000000000003438388900000000000000000000424812500000000000000000000000003811337600000000000000000000424800000000000000000000000000004029899900000000000000000000424787500000000000000000000000003699779900000000000000000000424775000000000000000000000000003664155900000000000000000000424762500000000000000000000000003823071600000000000000000000424750000000000000000000000000003758653900000000000000000000424737500000000000000000000000003460243200000000000000000000424725000000000000000000000000003602310100000000000000000000424712500000000000000000000000003729331400000000000000000000424700000000000000000000000000003502980200000000000000000000424687500000000000000000000000003627648800000000000000000000424675000000000000000000000000003779113800000000000000000000424662500000000000000000000000004195131900000000000000000000424650000000000000000000000000004179236400000000000000000000424637500000000000000000000000003759928100000000000000000000424625000000000000000000000000003805835200000000000000000000424612500000000000000000000000003654762200000000000000000000424600000000000000000000000000003761109800000000000000000000424587500000000000000000000000003714278000000000000000000000424575000000000000000000000000003371438000000000000000000000424562500000000000000000000000003320348400000000000000000000424550000000000000000000000000003704424900000000000000000000424537500000000000000000000000003528796200000000000000000000424525000000000000000000000000003671203400000000000000000000424512500000000000000000000000003679629100000000000000000000424500000000000000000000000000003683714900000000000000000000424487500000000000000000000000003858999000000000000000000000424475000000000000000000000000003785986400000000000000000000424462500000000000000000000000003795474000000000000000000000424450000000000000000000000000003631695400000000000000000000424437500000000000000000000000003416705200000000000000000000424425000000000000000000000000003401783300000000000000000000424412500000000000000000000000003367357500000000000000000000424400000000000000000000000000003837700800000000000000000000424387500000000000000000000000003658127600000000000000000000424375000000000000000000000000003702719400000000000000000000424362500000000000000000000000003844716900000000000000000000424350000000000000000000000000003877895600000000000000000000424337500000000000000000000000003574284000000000000000000000424325000000000000000000000000003537324400000000000000000000424312500000000000000000000000003795689800000000000000000000424300000000000000000000000000003848678700000000000000000000424287500000000000000000000000003752465700000000000000000000424275000000000000000000000000003567801500000000000000000000424262500000000000000000000000003606601700000000000000000000424250000000000000000000000000003504951100000000000000000000424237500000000000000000000000003754704900000000000000000000424225000000000000000000000000003816538200000000000000000000424212500000000000000000000000003591945900000000000000000000424200000000000000000000,
    3598556600000000000000000000425787500000000000000000000000003649416100000000000000000000425775000000000000000000000000003718198400000000000000000000425762500000000000000000000000003862588500000000000000000000425750000000000000000000000000003834387200000000000000000000425737500000000000000000000000003994848600000000000000000000425725000000000000000000000000003924744400000000000000000000425712500000000000000000000000003549463100000000000000000000425700000000000000000000000000004180490400000000000000000000425687500000000000000000000000005112725400000000000000000000425675000000000000000000000000004169591200000000000000000000425662500000000000000000000000003731561800000000000000000000425650000000000000000000000000003922386200000000000000000000425637500000000000000000000000003955568300000000000000000000425625000000000000000000000000003990307000000000000000000000425612500000000000000000000000004051420100000000000000000000425600000000000000000000000000003608505600000000000000000000425587500000000000000000000000003488218500000000000000000000425575000000000000000000000000003663972800000000000000000000425562500000000000000000000000003895856100000000000000000000425550000000000000000000000000003830258500000000000000000000425537500000000000000000000000003967138100000000000000000000425525000000000000000000000000003818600400000000000000000000425512500000000000000000000000003616993200000000000000000000425500000000000000000000000000003633594900000000000000000000425487500000000000000000000000003799884100000000000000000000425475000000000000000000000000003691415500000000000000000000425462500000000000000000000000003764149700000000000000000000425450000000000000000000000000004185971000000000000000000000425437500000000000000000000000003838857800000000000000000000425425000000000000000000000000003744486500000000000000000000425412500000000000000000000000003652934800000000000000000000425400000000000000000000000000003631843400000000000000000000425387500000000000000000000000003750806700000000000000000000425375000000000000000000000000003815081200000000000000000000425362500000000000000000000000003729638200000000000000000000425350000000000000000000000000003710534400000000000000000000425337500000000000000000000000003821085400000000000000000000425325000000000000000000000000003977786500000000000000000000425312500000000000000000000000003748775800000000000000000000425300000000000000000000000000003541145100000000000000000000425287500000000000000000000000003517649600000000000000000000425275000000000000000000000000003940940100000000000000000000425262500000000000000000000000004547083700000000000000000000425250000000000000000000000000004554686900000000000000000000425237500000000000000000000000003671206400000000000000000000425225000000000000000000000000003532458600000000000000000000425212500000000000000000000000003961266300000000000000000000425200000000000000000000000000004111259500000000000000000000425187500000000000000000000000003883587100000000000000000000425175000000000000000000000000003779403000000000000000000000425162500000000000000000000000003871569700000000000000000000425150000000000000000000000000003965809200000000000000000000425137500000000000000000000000004002866100000000000000000000425125000000000000000000000000003715820700000000000000000000425112500000000000000000000000003886731700000000000000000000425100000000000000000000000000003768254800000000000000000000425087500000000000000000000000004029699000000000000000000000425075000000000000000000000000004041437900000000000000000000425062500000000000000000000000003905538100000000000000000000425050000000000000000000000000003920568900000000000000000000425037500000000000000000000000003950990200000000000000000000425025000000000000000000000000003922163700000000000000000000425012500000000000000000000000003948860200000000000000000000425000000000000000000000,
    3552279200000000000000000000426587500000000000000000000000003673703600000000000000000000426575000000000000000000000000003666806300000000000000000000426562500000000000000000000000003821308000000000000000000000426550000000000000000000000000004077015800000000000000000000426537500000000000000000000000004272143600000000000000000000426525000000000000000000000000003897346400000000000000000000426512500000000000000000000000003474687600000000000000000000426500000000000000000000000000003720929000000000000000000000426487500000000000000000000000004227480800000000000000000000426475000000000000000000000000004323917300000000000000000000426462500000000000000000000000003933005900000000000000000000426450000000000000000000000000003988159800000000000000000000426437500000000000000000000000004153112400000000000000000000426425000000000000000000000000003715512700000000000000000000426412500000000000000000000000004020196600000000000000000000426400000000000000000000000000004167603300000000000000000000426387500000000000000000000000003994175900000000000000000000426375000000000000000000000000004098625600000000000000000000426362500000000000000000000000004012029600000000000000000000426350000000000000000000000000003959396800000000000000000000426337500000000000000000000000004599714300000000000000000000426325000000000000000000000000005180026200000000000000000000426312500000000000000000000000004185563500000000000000000000426300000000000000000000000000004074143500000000000000000000426287500000000000000000000000004873475700000000000000000000426275000000000000000000000000011908951000000000000000000000426262500000000000000000000000012341098000000000000000000000426250000000000000000000000000004677414100000000000000000000426237500000000000000000000000003969251300000000000000000000426225000000000000000000000000003870723900000000000000000000426212500000000000000000000000004072353500000000000000000000426200000000000000000000000000003932926900000000000000000000426187500000000000000000000000004142338200000000000000000000426175000000000000000000000000003805146200000000000000000000426162500000000000000000000000003484809300000000000000000000426150000000000000000000000000003643833000000000000000000000426137500000000000000000000000003962730100000000000000000000426125000000000000000000000000003992331100000000000000000000426112500000000000000000000000003872177000000000000000000000426100000000000000000000000000003991317700000000000000000000426087500000000000000000000000003896222500000000000000000000426075000000000000000000000000003787809300000000000000000000426062500000000000000000000000003904562600000000000000000000426050000000000000000000000000003929869600000000000000000000426037500000000000000000000000004072425500000000000000000000426025000000000000000000000000003910098500000000000000000000426012500000000000000000000000003662529800000000000000000000426000000000000000000000000000004080407500000000000000000000425987500000000000000000000000004004512800000000000000000000425975000000000000000000000000004058954700000000000000000000425962500000000000000000000000006899794000000000000000000000425950000000000000000000000000008243571700000000000000000000425937500000000000000000000000004738978700000000000000000000425925000000000000000000000000004087991600000000000000000000425912500000000000000000000000004026173500000000000000000000425900000000000000000000000000004125229600000000000000000000425887500000000000000000000000004178268200000000000000000000425875000000000000000000000000003809282600000000000000000000425862500000000000000000000000003866418400000000000000000000425850000000000000000000000000003704271900000000000000000000425837500000000000000000000000003584032000000000000000000000425825000000000000000000000000003625409500000000000000000000425812500000000000000000000000003621771400000000000000000000425800000000000000000000,
    3731858400000000000000000000427387500000000000000000000000003720263900000000000000000000427375000000000000000000000000003579574800000000000000000000427362500000000000000000000000003456263100000000000000000000427350000000000000000000000000003593137300000000000000000000427337500000000000000000000000003917912200000000000000000000427325000000000000000000000000003917901500000000000000000000427312500000000000000000000000004088724000000000000000000000427300000000000000000000000000003876170400000000000000000000427287500000000000000000000000003413203600000000000000000000427275000000000000000000000000003401049700000000000000000000427262500000000000000000000000003710085000000000000000000000427250000000000000000000000000003912571000000000000000000000427237500000000000000000000000003820415200000000000000000000427225000000000000000000000000003600721700000000000000000000427212500000000000000000000000003619761900000000000000000000427200000000000000000000000000003940575600000000000000000000427187500000000000000000000000003782455400000000000000000000427175000000000000000000000000003983987700000000000000000000427162500000000000000000000000003842775900000000000000000000427150000000000000000000000000003779890500000000000000000000427137500000000000000000000000003673075700000000000000000000427125000000000000000000000000003926219300000000000000000000427112500000000000000000000000004032789200000000000000000000427100000000000000000000000000003838613300000000000000000000427087500000000000000000000000003634989500000000000000000000427075000000000000000000000000003916484900000000000000000000427062500000000000000000000000003653981400000000000000000000427050000000000000000000000000003696899200000000000000000000427037500000000000000000000000003397315000000000000000000000427025000000000000000000000000003671101100000000000000000000427012500000000000000000000000003875074000000000000000000000427000000000000000000000000000003831969500000000000000000000426987500000000000000000000000004121001300000000000000000000426975000000000000000000000000004064333400000000000000000000426962500000000000000000000000003768834200000000000000000000426950000000000000000000000000003799912600000000000000000000426937500000000000000000000000004041164400000000000000000000426925000000000000000000000000004032808500000000000000000000426912500000000000000000000000003759072600000000000000000000426900000000000000000000000000003904267300000000000000000000426887500000000000000000000000004053300000000000000000000000426875000000000000000000000000003907477200000000000000000000426862500000000000000000000000004138311500000000000000000000426850000000000000000000000000004147025200000000000000000000426837500000000000000000000000003967397600000000000000000000426825000000000000000000000000003956395100000000000000000000426812500000000000000000000000003799198200000000000000000000426800000000000000000000000000003672800400000000000000000000426787500000000000000000000000004022965700000000000000000000426775000000000000000000000000004099048900000000000000000000426762500000000000000000000000003549422900000000000000000000426750000000000000000000000000003576682600000000000000000000426737500000000000000000000000004083891000000000000000000000426725000000000000000000000000004002035900000000000000000000426712500000000000000000000000003692675700000000000000000000426700000000000000000000000000003550177000000000000000000000426687500000000000000000000000003730000600000000000000000000426675000000000000000000000000003973879400000000000000000000426662500000000000000000000000003850114200000000000000000000426650000000000000000000000000003561441900000000000000000000426637500000000000000000000000003643727500000000000000000000426625000000000000000000000000003937028200000000000000000000426612500000000000000000000000003496021600000000000000000000426600000000000000000000,
    3867873400000000000000000000428187500000000000000000000000003709984700000000000000000000428175000000000000000000000000003669766000000000000000000000428162500000000000000000000000003819770400000000000000000000428150000000000000000000000000003835203600000000000000000000428137500000000000000000000000003766345300000000000000000000428125000000000000000000000000003929318100000000000000000000428112500000000000000000000000003955098500000000000000000000428100000000000000000000000000004172407000000000000000000000428087500000000000000000000000004318679900000000000000000000428075000000000000000000000000004178821100000000000000000000428062500000000000000000000000003905646300000000000000000000428050000000000000000000000000003877868400000000000000000000428037500000000000000000000000003889732500000000000000000000428025000000000000000000000000003859640100000000000000000000428012500000000000000000000000003872391000000000000000000000428000000000000000000000000000004001563000000000000000000000427987500000000000000000000000003755728000000000000000000000427975000000000000000000000000003661094300000000000000000000427962500000000000000000000000003810661800000000000000000000427950000000000000000000000000004415082300000000000000000000427937500000000000000000000000005113529400000000000000000000427925000000000000000000000000003912622100000000000000000000427912500000000000000000000000003685944800000000000000000000427900000000000000000000000000003820669100000000000000000000427887500000000000000000000000003789457800000000000000000000427875000000000000000000000000004027758800000000000000000000427862500000000000000000000000004095640300000000000000000000427850000000000000000000000000004112576600000000000000000000427837500000000000000000000000003967581300000000000000000000427825000000000000000000000000003953688900000000000000000000427812500000000000000000000000003858959900000000000000000000427800000000000000000000000000003939393200000000000000000000427787500000000000000000000000003539745500000000000000000000427775000000000000000000000000003610200100000000000000000000427762500000000000000000000000003838829200000000000000000000427750000000000000000000000000003530771400000000000000000000427737500000000000000000000000003619061200000000000000000000427725000000000000000000000000003627070700000000000000000000427712500000000000000000000000003655565000000000000000000000427700000000000000000000000000003712302000000000000000000000427687500000000000000000000000003817194500000000000000000000427675000000000000000000000000003507031000000000000000000000427662500000000000000000000000003617154900000000000000000000427650000000000000000000000000004034306200000000000000000000427637500000000000000000000000004829184400000000000000000000427625000000000000000000000000004209756100000000000000000000427612500000000000000000000000004206407700000000000000000000427600000000000000000000000000003977411500000000000000000000427587500000000000000000000000003840532300000000000000000000427575000000000000000000000000003881150700000000000000000000427562500000000000000000000000003800191000000000000000000000427550000000000000000000000000003948613700000000000000000000427537500000000000000000000000004207041100000000000000000000427525000000000000000000000000004106704600000000000000000000427512500000000000000000000000003977235600000000000000000000427500000000000000000000000000003858942700000000000000000000427487500000000000000000000000003672276900000000000000000000427475000000000000000000000000003616336200000000000000000000427462500000000000000000000000003601832900000000000000000000427450000000000000000000000000003714355000000000000000000000427437500000000000000000000000003813358200000000000000000000427425000000000000000000000000003763713200000000000000000000427412500000000000000000000000003808307000000000000000000000427400000000000000000000,
    3735918200000000000000000000428987500000000000000000000000003684446400000000000000000000428975000000000000000000000000003552786300000000000000000000428962500000000000000000000000003404124100000000000000000000428950000000000000000000000000003510053800000000000000000000428937500000000000000000000000003936652600000000000000000000428925000000000000000000000000006963599100000000000000000000428912500000000000000000000000006086426400000000000000000000428900000000000000000000000000003915335700000000000000000000428887500000000000000000000000003728568200000000000000000000428875000000000000000000000000003614084900000000000000000000428862500000000000000000000000004118966000000000000000000000428850000000000000000000000000004137003600000000000000000000428837500000000000000000000000003924751600000000000000000000428825000000000000000000000000004175763400000000000000000000428812500000000000000000000000004260471700000000000000000000428800000000000000000000000000005030226200000000000000000000428787500000000000000000000000010331069000000000000000000000428775000000000000000000000000008984766100000000000000000000428762500000000000000000000000004051916000000000000000000000428750000000000000000000000000003988089900000000000000000000428737500000000000000000000000003795274700000000000000000000428725000000000000000000000000003673140800000000000000000000428712500000000000000000000000003737065800000000000000000000428700000000000000000000000000003785082100000000000000000000428687500000000000000000000000003831175200000000000000000000428675000000000000000000000000004092117500000000000000000000428662500000000000000000000000003864423500000000000000000000428650000000000000000000000000003769755500000000000000000000428637500000000000000000000000003760852300000000000000000000428625000000000000000000000000003496724700000000000000000000428612500000000000000000000000004069112700000000000000000000428600000000000000000000000000004000524700000000000000000000428587500000000000000000000000003847767300000000000000000000428575000000000000000000000000003548063200000000000000000000428562500000000000000000000000003709881000000000000000000000428550000000000000000000000000003967319000000000000000000000428537500000000000000000000000003976580300000000000000000000428525000000000000000000000000004012189100000000000000000000428512500000000000000000000000004001311300000000000000000000428500000000000000000000000000003912530300000000000000000000428487500000000000000000000000003939813300000000000000000000428475000000000000000000000000003960825900000000000000000000428462500000000000000000000000003918392100000000000000000000428450000000000000000000000000003957295500000000000000000000428437500000000000000000000000003865678000000000000000000000428425000000000000000000000000003620741200000000000000000000428412500000000000000000000000003502472000000000000000000000428400000000000000000000000000003813531800000000000000000000428387500000000000000000000000003979715400000000000000000000428375000000000000000000000000003924281100000000000000000000428362500000000000000000000000003829752000000000000000000000428350000000000000000000000000003897072000000000000000000000428337500000000000000000000000003989035800000000000000000000428325000000000000000000000000003906721300000000000000000000428312500000000000000000000000003680728800000000000000000000428300000000000000000000000000003754715400000000000000000000428287500000000000000000000000003708864100000000000000000000428275000000000000000000000000003572928200000000000000000000428262500000000000000000000000003756583300000000000000000000428250000000000000000000000000003987612600000000000000000000428237500000000000000000000000003787027400000000000000000000428225000000000000000000000000003444990600000000000000000000428212500000000000000000000000003672967100000000000000000000428200000000000000000000,
    3883266700000000000000000000429787500000000000000000000000003786700500000000000000000000429775000000000000000000000000003850373800000000000000000000429762500000000000000000000000003945760900000000000000000000429750000000000000000000000000003966816500000000000000000000429737500000000000000000000000003931474800000000000000000000429725000000000000000000000000003829120900000000000000000000429712500000000000000000000000005262279000000000000000000000429700000000000000000000000000006419879300000000000000000000429687500000000000000000000000004510453800000000000000000000429675000000000000000000000000003830589400000000000000000000429662500000000000000000000000003622086200000000000000000000429650000000000000000000000000003890501600000000000000000000429637500000000000000000000000003810315900000000000000000000429625000000000000000000000000003859880000000000000000000000429612500000000000000000000000003869891400000000000000000000429600000000000000000000000000003807701400000000000000000000429587500000000000000000000000003777732300000000000000000000429575000000000000000000000000003800555700000000000000000000429562500000000000000000000000003670605200000000000000000000429550000000000000000000000000003767928900000000000000000000429537500000000000000000000000003910043600000000000000000000429525000000000000000000000000005216191000000000000000000000429512500000000000000000000000006913416800000000000000000000429500000000000000000000000000004560382100000000000000000000429487500000000000000000000000003954940100000000000000000000429475000000000000000000000000004207649700000000000000000000429462500000000000000000000000004009069700000000000000000000429450000000000000000000000000003903101000000000000000000000429437500000000000000000000000003922489500000000000000000000429425000000000000000000000000003691467400000000000000000000429412500000000000000000000000003535415600000000000000000000429400000000000000000000000000003791173800000000000000000000429387500000000000000000000000003881641100000000000000000000429375000000000000000000000000003837419500000000000000000000429362500000000000000000000000003799803300000000000000000000429350000000000000000000000000003795386900000000000000000000429337500000000000000000000000003843237500000000000000000000429325000000000000000000000000004096176000000000000000000000429312500000000000000000000000004331913200000000000000000000429300000000000000000000000000005689714400000000000000000000429287500000000000000000000000004331019400000000000000000000429275000000000000000000000000003522105500000000000000000000429262500000000000000000000000003497452500000000000000000000429250000000000000000000000000003739397400000000000000000000429237500000000000000000000000003593370500000000000000000000429225000000000000000000000000003969324700000000000000000000429212500000000000000000000000004016270300000000000000000000429200000000000000000000000000003809206700000000000000000000429187500000000000000000000000003916576500000000000000000000429175000000000000000000000000004124212500000000000000000000429162500000000000000000000000004153522400000000000000000000429150000000000000000000000000003466050200000000000000000000429137500000000000000000000000003756501300000000000000000000429125000000000000000000000000003767515800000000000000000000429112500000000000000000000000003510515100000000000000000000429100000000000000000000000000003847555500000000000000000000429087500000000000000000000000003945419000000000000000000000429075000000000000000000000000003992872300000000000000000000429062500000000000000000000000003934947100000000000000000000429050000000000000000000000000003858277800000000000000000000429037500000000000000000000000004005024600000000000000000000429025000000000000000000000000004259945200000000000000000000429012500000000000000000000000004127619200000000000000000000429000000000000000000000,
    3907460200000000000000000000430587500000000000000000000000003897880600000000000000000000430575000000000000000000000000004003916400000000000000000000430562500000000000000000000000003956379200000000000000000000430550000000000000000000000000003769812100000000000000000000430537500000000000000000000000003837496300000000000000000000430525000000000000000000000000004929181800000000000000000000430512500000000000000000000000006318281700000000000000000000430500000000000000000000000000004761031300000000000000000000430487500000000000000000000000004264183400000000000000000000430475000000000000000000000000004265061800000000000000000000430462500000000000000000000000004051449300000000000000000000430450000000000000000000000000003556360500000000000000000000430437500000000000000000000000003687238800000000000000000000430425000000000000000000000000003823337100000000000000000000430412500000000000000000000000003700278700000000000000000000430400000000000000000000000000003657910200000000000000000000430387500000000000000000000000003864542300000000000000000000430375000000000000000000000000003854867400000000000000000000430362500000000000000000000000003948027300000000000000000000430350000000000000000000000000004175633300000000000000000000430337500000000000000000000000004382154700000000000000000000430325000000000000000000000000004253628700000000000000000000430312500000000000000000000000003889781800000000000000000000430300000000000000000000000000003733659700000000000000000000430287500000000000000000000000004017430600000000000000000000430275000000000000000000000000003734627300000000000000000000430262500000000000000000000000003667510200000000000000000000430250000000000000000000000000004144233900000000000000000000430237500000000000000000000000003984312800000000000000000000430225000000000000000000000000004017407000000000000000000000430212500000000000000000000000003956613500000000000000000000430200000000000000000000000000003732096300000000000000000000430187500000000000000000000000003823348100000000000000000000430175000000000000000000000000003853985500000000000000000000430162500000000000000000000000003912580300000000000000000000430150000000000000000000000000004244043900000000000000000000430137500000000000000000000000004131039400000000000000000000430125000000000000000000000000003758013500000000000000000000430112500000000000000000000000003619519200000000000000000000430100000000000000000000000000003851795300000000000000000000430087500000000000000000000000003931878000000000000000000000430075000000000000000000000000003853349100000000000000000000430062500000000000000000000000004194599700000000000000000000430050000000000000000000000000003578426000000000000000000000430037500000000000000000000000003605674100000000000000000000430025000000000000000000000000003823506500000000000000000000430012500000000000000000000000003652326500000000000000000000430000000000000000000000000000003596838900000000000000000000429987500000000000000000000000003861899000000000000000000000429975000000000000000000000000003895186000000000000000000000429962500000000000000000000000004001632000000000000000000000429950000000000000000000000000003793814000000000000000000000429937500000000000000000000000003855943900000000000000000000429925000000000000000000000000003790640800000000000000000000429912500000000000000000000000003758666100000000000000000000429900000000000000000000000000003785075200000000000000000000429887500000000000000000000000003625808000000000000000000000429875000000000000000000000000003306023400000000000000000000429862500000000000000000000000003482953100000000000000000000429850000000000000000000000000003519610700000000000000000000429837500000000000000000000000003961328200000000000000000000429825000000000000000000000000004369491000000000000000000000429812500000000000000000000000004027044100000000000000000000429800000000000000000000,
    3893996600000000000000000000431387500000000000000000000000003728254200000000000000000000431375000000000000000000000000003606883000000000000000000000431362500000000000000000000000003636162800000000000000000000431350000000000000000000000000003945238500000000000000000000431337500000000000000000000000003884950300000000000000000000431325000000000000000000000000003740315800000000000000000000431312500000000000000000000000003543843500000000000000000000431300000000000000000000000000003761362300000000000000000000431287500000000000000000000000003756052500000000000000000000431275000000000000000000000000003705066700000000000000000000431262500000000000000000000000003617009500000000000000000000431250000000000000000000000000003587681500000000000000000000431237500000000000000000000000003826683100000000000000000000431225000000000000000000000000003771139200000000000000000000431212500000000000000000000000003757113500000000000000000000431200000000000000000000000000004011838000000000000000000000431187500000000000000000000000004000077300000000000000000000431175000000000000000000000000004110691800000000000000000000431162500000000000000000000000003838145800000000000000000000431150000000000000000000000000003844784700000000000000000000431137500000000000000000000000003919286400000000000000000000431125000000000000000000000000004074550600000000000000000000431112500000000000000000000000004107668600000000000000000000431100000000000000000000000000003905259800000000000000000000431087500000000000000000000000003897365100000000000000000000431075000000000000000000000000003964728300000000000000000000431062500000000000000000000000004336577400000000000000000000431050000000000000000000000000004111748700000000000000000000431037500000000000000000000000003633754000000000000000000000431025000000000000000000000000003729108400000000000000000000431012500000000000000000000000003881095500000000000000000000431000000000000000000000000000004149981800000000000000000000430987500000000000000000000000004049652400000000000000000000430975000000000000000000000000004161577200000000000000000000430962500000000000000000000000003806392400000000000000000000430950000000000000000000000000003465265000000000000000000000430937500000000000000000000000003714281300000000000000000000430925000000000000000000000000003973877100000000000000000000430912500000000000000000000000003907150900000000000000000000430900000000000000000000000000003932271600000000000000000000430887500000000000000000000000004100140400000000000000000000430875000000000000000000000000003907583000000000000000000000430862500000000000000000000000003647939400000000000000000000430850000000000000000000000000003420045700000000000000000000430837500000000000000000000000003942100500000000000000000000430825000000000000000000000000003909682600000000000000000000430812500000000000000000000000003827899300000000000000000000430800000000000000000000000000004063747300000000000000000000430787500000000000000000000000003927845900000000000000000000430775000000000000000000000000004054736300000000000000000000430762500000000000000000000000003801739600000000000000000000430750000000000000000000000000003549623000000000000000000000430737500000000000000000000000003879342200000000000000000000430725000000000000000000000000003859263400000000000000000000430712500000000000000000000000003746044400000000000000000000430700000000000000000000000000003809661000000000000000000000430687500000000000000000000000003930203100000000000000000000430675000000000000000000000000004114677600000000000000000000430662500000000000000000000000003929570500000000000000000000430650000000000000000000000000003930849200000000000000000000430637500000000000000000000000006312037500000000000000000000430625000000000000000000000000006627627300000000000000000000430612500000000000000000000000003975227100000000000000000000430600000000000000000000,
    4114721700000000000000000000432187500000000000000000000000003901630000000000000000000000432175000000000000000000000000004651716900000000000000000000432162500000000000000000000000006046807000000000000000000000432150000000000000000000000000004478537900000000000000000000432137500000000000000000000000003976172700000000000000000000432125000000000000000000000000003972436600000000000000000000432112500000000000000000000000003919366900000000000000000000432100000000000000000000000000004120033900000000000000000000432087500000000000000000000000003925511000000000000000000000432075000000000000000000000000003749685900000000000000000000432062500000000000000000000000003426698400000000000000000000432050000000000000000000000000003538973100000000000000000000432037500000000000000000000000003810602700000000000000000000432025000000000000000000000000004292418100000000000000000000432012500000000000000000000000006438756700000000000000000000432000000000000000000000000000005268083900000000000000000000431987500000000000000000000000004260563800000000000000000000431975000000000000000000000000003885447300000000000000000000431962500000000000000000000000003685938500000000000000000000431950000000000000000000000000003739131800000000000000000000431937500000000000000000000000003641563200000000000000000000431925000000000000000000000000003937585200000000000000000000431912500000000000000000000000003837847600000000000000000000431900000000000000000000000000003983804700000000000000000000431887500000000000000000000000004004613800000000000000000000431875000000000000000000000000003659626200000000000000000000431862500000000000000000000000003751664300000000000000000000431850000000000000000000000000004062525100000000000000000000431837500000000000000000000000003874486900000000000000000000431825000000000000000000000000003708722300000000000000000000431812500000000000000000000000003967489200000000000000000000431800000000000000000000000000003915605700000000000000000000431787500000000000000000000000004472660500000000000000000000431775000000000000000000000000004024037200000000000000000000431762500000000000000000000000003939691400000000000000000000431750000000000000000000000000004090751300000000000000000000431737500000000000000000000000003875388200000000000000000000431725000000000000000000000000003798315100000000000000000000431712500000000000000000000000004208701000000000000000000000431700000000000000000000000000004305529500000000000000000000431687500000000000000000000000004083165100000000000000000000431675000000000000000000000000003564878000000000000000000000431662500000000000000000000000003416693300000000000000000000431650000000000000000000000000003665980800000000000000000000431637500000000000000000000000004053911800000000000000000000431625000000000000000000000000003498097900000000000000000000431612500000000000000000000000003627121600000000000000000000431600000000000000000000000000003720078700000000000000000000431587500000000000000000000000003652375400000000000000000000431575000000000000000000000000003877497800000000000000000000431562500000000000000000000000003922985700000000000000000000431550000000000000000000000000003743493500000000000000000000431537500000000000000000000000004073724400000000000000000000431525000000000000000000000000003837870600000000000000000000431512500000000000000000000000003958083800000000000000000000431500000000000000000000000000003939812300000000000000000000431487500000000000000000000000003971400800000000000000000000431475000000000000000000000000004112915700000000000000000000431462500000000000000000000000003894873000000000000000000000431450000000000000000000000000003722760800000000000000000000431437500000000000000000000000003628825400000000000000000000431425000000000000000000000000003656580900000000000000000000431412500000000000000000000000003671330000000000000000000000431400000000000000000000,
    3836868100000000000000000000432987500000000000000000000000003979332500000000000000000000432975000000000000000000000000004186174300000000000000000000432962500000000000000000000000004237423400000000000000000000432950000000000000000000000000003779612400000000000000000000432937500000000000000000000000003782675900000000000000000000432925000000000000000000000000003941664900000000000000000000432912500000000000000000000000004123138500000000000000000000432900000000000000000000000000004123155100000000000000000000432887500000000000000000000000004031667800000000000000000000432875000000000000000000000000006471580400000000000000000000432862500000000000000000000000009021778500000000000000000000432850000000000000000000000000007975867900000000000000000000432837500000000000000000000000011080318000000000000000000000432825000000000000000000000000006422566000000000000000000000432812500000000000000000000000005362616600000000000000000000432800000000000000000000000000004668279400000000000000000000432787500000000000000000000000004189884200000000000000000000432775000000000000000000000000003845559900000000000000000000432762500000000000000000000000003818467800000000000000000000432750000000000000000000000000003542402700000000000000000000432737500000000000000000000000003517170100000000000000000000432725000000000000000000000000003962671400000000000000000000432712500000000000000000000000004053214300000000000000000000432700000000000000000000000000003763065100000000000000000000432687500000000000000000000000003399908600000000000000000000432675000000000000000000000000003601679600000000000000000000432662500000000000000000000000005097940000000000000000000000432650000000000000000000000000006100736700000000000000000000432637500000000000000000000000004483960900000000000000000000432625000000000000000000000000004067714400000000000000000000432612500000000000000000000000003849624000000000000000000000432600000000000000000000000000004043918300000000000000000000432587500000000000000000000000003911476800000000000000000000432575000000000000000000000000003807600800000000000000000000432562500000000000000000000000003978710000000000000000000000432550000000000000000000000000003853311200000000000000000000432537500000000000000000000000003905415800000000000000000000432525000000000000000000000000004043639600000000000000000000432512500000000000000000000000003936789100000000000000000000432500000000000000000000000000003770147400000000000000000000432487500000000000000000000000003905035500000000000000000000432475000000000000000000000000003919976900000000000000000000432462500000000000000000000000003961264600000000000000000000432450000000000000000000000000003818468200000000000000000000432437500000000000000000000000003744911200000000000000000000432425000000000000000000000000003913401200000000000000000000432412500000000000000000000000004013748900000000000000000000432400000000000000000000000000004074789400000000000000000000432387500000000000000000000000003950819100000000000000000000432375000000000000000000000000003732714400000000000000000000432362500000000000000000000000003592967600000000000000000000432350000000000000000000000000003646481600000000000000000000432337500000000000000000000000004022550500000000000000000000432325000000000000000000000000003928743300000000000000000000432312500000000000000000000000004165015300000000000000000000432300000000000000000000000000004105021100000000000000000000432287500000000000000000000000003961002600000000000000000000432275000000000000000000000000003671310300000000000000000000432262500000000000000000000000003595490200000000000000000000432250000000000000000000000000003951715700000000000000000000432237500000000000000000000000003749750300000000000000000000432225000000000000000000000000003659207100000000000000000000432212500000000000000000000000003749874600000000000000000000432200000000000000000000,
    3779306700000000000000000000433787500000000000000000000000004097830500000000000000000000433775000000000000000000000000004191577100000000000000000000433762500000000000000000000000004178740300000000000000000000433750000000000000000000000000004387398300000000000000000000433737500000000000000000000000004384103500000000000000000000433725000000000000000000000000004016034900000000000000000000433712500000000000000000000000004396463400000000000000000000433700000000000000000000000000004332724700000000000000000000433687500000000000000000000000004265772100000000000000000000433675000000000000000000000000004046664700000000000000000000433662500000000000000000000000004090548900000000000000000000433650000000000000000000000000004258644900000000000000000000433637500000000000000000000000003991157100000000000000000000433625000000000000000000000000003853551600000000000000000000433612500000000000000000000000003843242500000000000000000000433600000000000000000000000000004169761000000000000000000000433587500000000000000000000000004076390900000000000000000000433575000000000000000000000000003885918700000000000000000000433562500000000000000000000000003698781500000000000000000000433550000000000000000000000000003757129900000000000000000000433537500000000000000000000000003963384400000000000000000000433525000000000000000000000000004250878500000000000000000000433512500000000000000000000000004060805700000000000000000000433500000000000000000000000000003917469900000000000000000000433487500000000000000000000000004144231000000000000000000000433475000000000000000000000000004002152500000000000000000000433462500000000000000000000000004173677200000000000000000000433450000000000000000000000000004093482600000000000000000000433437500000000000000000000000003819927400000000000000000000433425000000000000000000000000003780529500000000000000000000433412500000000000000000000000003796209000000000000000000000433400000000000000000000000000004017642500000000000000000000433387500000000000000000000000004178565700000000000000000000433375000000000000000000000000004111567100000000000000000000433362500000000000000000000000004434829800000000000000000000433350000000000000000000000000004806938500000000000000000000433337500000000000000000000000004570119200000000000000000000433325000000000000000000000000004125345700000000000000000000433312500000000000000000000000004082301000000000000000000000433300000000000000000000000000004165100100000000000000000000433287500000000000000000000000003973089000000000000000000000433275000000000000000000000000004112663100000000000000000000433262500000000000000000000000004081504400000000000000000000433250000000000000000000000000003933245200000000000000000000433237500000000000000000000000004041524000000000000000000000433225000000000000000000000000004020919900000000000000000000433212500000000000000000000000003821806500000000000000000000433200000000000000000000000000004005131600000000000000000000433187500000000000000000000000004120692600000000000000000000433175000000000000000000000000003932826000000000000000000000433162500000000000000000000000003805018200000000000000000000433150000000000000000000000000003863398200000000000000000000433137500000000000000000000000004005098600000000000000000000433125000000000000000000000000004006378500000000000000000000433112500000000000000000000000004023657200000000000000000000433100000000000000000000000000003749030600000000000000000000433087500000000000000000000000004237482100000000000000000000433075000000000000000000000000004296769200000000000000000000433062500000000000000000000000004161646500000000000000000000433050000000000000000000000000004057654900000000000000000000433037500000000000000000000000003932128400000000000000000000433025000000000000000000000000003883059000000000000000000000433012500000000000000000000000003923693900000000000000000000433000000000000000000000,
    4007958700000000000000000000434587500000000000000000000000003998502900000000000000000000434575000000000000000000000000004280768200000000000000000000434562500000000000000000000000004505233800000000000000000000434550000000000000000000000000004269643200000000000000000000434537500000000000000000000000003753805500000000000000000000434525000000000000000000000000003864789700000000000000000000434512500000000000000000000000004344754000000000000000000000434500000000000000000000000000004211687600000000000000000000434487500000000000000000000000004057524800000000000000000000434475000000000000000000000000004075922100000000000000000000434462500000000000000000000000003996383200000000000000000000434450000000000000000000000000003997720400000000000000000000434437500000000000000000000000003897891800000000000000000000434425000000000000000000000000004094513700000000000000000000434412500000000000000000000000004177111100000000000000000000434400000000000000000000000000004322799600000000000000000000434387500000000000000000000000004209745500000000000000000000434375000000000000000000000000003900161900000000000000000000434362500000000000000000000000003693107400000000000000000000434350000000000000000000000000003746593400000000000000000000434337500000000000000000000000004278170800000000000000000000434325000000000000000000000000004394117900000000000000000000434312500000000000000000000000004033844000000000000000000000434300000000000000000000000000003830323900000000000000000000434287500000000000000000000000003618083000000000000000000000434275000000000000000000000000003667172100000000000000000000434262500000000000000000000000003700184900000000000000000000434250000000000000000000000000003891837800000000000000000000434237500000000000000000000000004239108900000000000000000000434225000000000000000000000000004245107300000000000000000000434212500000000000000000000000003790115200000000000000000000434200000000000000000000000000003904238100000000000000000000434187500000000000000000000000003919157500000000000000000000434175000000000000000000000000004033508600000000000000000000434162500000000000000000000000004074459800000000000000000000434150000000000000000000000000004198805300000000000000000000434137500000000000000000000000004186220700000000000000000000434125000000000000000000000000004322363000000000000000000000434112500000000000000000000000004091704200000000000000000000434100000000000000000000000000004225121100000000000000000000434087500000000000000000000000004135577100000000000000000000434075000000000000000000000000004006941200000000000000000000434062500000000000000000000000004327128800000000000000000000434050000000000000000000000000004197171900000000000000000000434037500000000000000000000000003877169800000000000000000000434025000000000000000000000000004007996400000000000000000000434012500000000000000000000000003953577400000000000000000000434000000000000000000000000000004223274900000000000000000000433987500000000000000000000000004327364400000000000000000000433975000000000000000000000000004245532900000000000000000000433962500000000000000000000000004014954600000000000000000000433950000000000000000000000000003771799900000000000000000000433937500000000000000000000000004111171100000000000000000000433925000000000000000000000000003924608900000000000000000000433912500000000000000000000000003703338600000000000000000000433900000000000000000000000000004105368800000000000000000000433887500000000000000000000000004089537500000000000000000000433875000000000000000000000000003965825900000000000000000000433862500000000000000000000000003988567500000000000000000000433850000000000000000000000000004543248500000000000000000000433837500000000000000000000000004217682400000000000000000000433825000000000000000000000000003939046000000000000000000000433812500000000000000000000000003742950700000000000000000000433800000000000000000000,
    4244939900000000000000000000435387500000000000000000000000004296784600000000000000000000435375000000000000000000000000003990943100000000000000000000435362500000000000000000000000003770845500000000000000000000435350000000000000000000000000004122309700000000000000000000435337500000000000000000000000004265715800000000000000000000435325000000000000000000000000004332987600000000000000000000435312500000000000000000000000003890553200000000000000000000435300000000000000000000000000003437697000000000000000000000435287500000000000000000000000003715641600000000000000000000435275000000000000000000000000003906848400000000000000000000435262500000000000000000000000003947804900000000000000000000435250000000000000000000000000003992077700000000000000000000435237500000000000000000000000003892130900000000000000000000435225000000000000000000000000003987605100000000000000000000435212500000000000000000000000003980314300000000000000000000435200000000000000000000000000003911297500000000000000000000435187500000000000000000000000003984587600000000000000000000435175000000000000000000000000003860786100000000000000000000435162500000000000000000000000004088384900000000000000000000435150000000000000000000000000004117646300000000000000000000435137500000000000000000000000004284791300000000000000000000435125000000000000000000000000004079761600000000000000000000435112500000000000000000000000004150310500000000000000000000435100000000000000000000000000004232162000000000000000000000435087500000000000000000000000004356171100000000000000000000435075000000000000000000000000004253738400000000000000000000435062500000000000000000000000004364157600000000000000000000435050000000000000000000000000004210867000000000000000000000435037500000000000000000000000003608716200000000000000000000435025000000000000000000000000003853758600000000000000000000435012500000000000000000000000003792222100000000000000000000435000000000000000000000000000003742011200000000000000000000434987500000000000000000000000003951029400000000000000000000434975000000000000000000000000003831613800000000000000000000434962500000000000000000000000003983807200000000000000000000434950000000000000000000000000004052010100000000000000000000434937500000000000000000000000004078004100000000000000000000434925000000000000000000000000004089960300000000000000000000434912500000000000000000000000003754359200000000000000000000434900000000000000000000000000003876974100000000000000000000434887500000000000000000000000003779688600000000000000000000434875000000000000000000000000003660122500000000000000000000434862500000000000000000000000003962890900000000000000000000434850000000000000000000000000003788033900000000000000000000434837500000000000000000000000003892252500000000000000000000434825000000000000000000000000004055863000000000000000000000434812500000000000000000000000003907008600000000000000000000434800000000000000000000000000004217913100000000000000000000434787500000000000000000000000004308906500000000000000000000434775000000000000000000000000003884793800000000000000000000434762500000000000000000000000003881722900000000000000000000434750000000000000000000000000003881020700000000000000000000434737500000000000000000000000004053119200000000000000000000434725000000000000000000000000004112663600000000000000000000434712500000000000000000000000003823287100000000000000000000434700000000000000000000000000003871976900000000000000000000434687500000000000000000000000004052856900000000000000000000434675000000000000000000000000004184188900000000000000000000434662500000000000000000000000003932318600000000000000000000434650000000000000000000000000004012402000000000000000000000434637500000000000000000000000003786310700000000000000000000434625000000000000000000000000004044819100000000000000000000434612500000000000000000000000004058536600000000000000000000434600000000000000000000,
    4033840600000000000000000000436187500000000000000000000000003984061500000000000000000000436175000000000000000000000000004215504300000000000000000000436162500000000000000000000000004171718600000000000000000000436150000000000000000000000000004086293300000000000000000000436137500000000000000000000000004028994500000000000000000000436125000000000000000000000000003906085400000000000000000000436112500000000000000000000000004046229600000000000000000000436100000000000000000000000000003958462600000000000000000000436087500000000000000000000000004107504600000000000000000000436075000000000000000000000000004254530000000000000000000000436062500000000000000000000000004100322000000000000000000000436050000000000000000000000000004148085000000000000000000000436037500000000000000000000000004146389800000000000000000000436025000000000000000000000000003974361000000000000000000000436012500000000000000000000000004005051100000000000000000000436000000000000000000000000000004144148500000000000000000000435987500000000000000000000000003934291800000000000000000000435975000000000000000000000000003856153400000000000000000000435962500000000000000000000000003862324200000000000000000000435950000000000000000000000000004170084700000000000000000000435937500000000000000000000000004706036800000000000000000000435925000000000000000000000000004398800400000000000000000000435912500000000000000000000000003910380200000000000000000000435900000000000000000000000000003973704900000000000000000000435887500000000000000000000000004080592400000000000000000000435875000000000000000000000000003850316300000000000000000000435862500000000000000000000000003833964400000000000000000000435850000000000000000000000000003848387600000000000000000000435837500000000000000000000000003948736600000000000000000000435825000000000000000000000000004232484800000000000000000000435812500000000000000000000000004022522300000000000000000000435800000000000000000000000000003879659300000000000000000000435787500000000000000000000000003838677000000000000000000000435775000000000000000000000000004354703500000000000000000000435762500000000000000000000000004190475600000000000000000000435750000000000000000000000000004330889300000000000000000000435737500000000000000000000000004245483400000000000000000000435725000000000000000000000000003839435500000000000000000000435712500000000000000000000000003815725100000000000000000000435700000000000000000000000000003706601000000000000000000000435687500000000000000000000000003765767700000000000000000000435675000000000000000000000000003826390800000000000000000000435662500000000000000000000000004067605800000000000000000000435650000000000000000000000000003845614900000000000000000000435637500000000000000000000000003864571300000000000000000000435625000000000000000000000000004264763500000000000000000000435612500000000000000000000000004122335800000000000000000000435600000000000000000000000000003919087700000000000000000000435587500000000000000000000000003992373200000000000000000000435575000000000000000000000000004015201200000000000000000000435562500000000000000000000000003988284600000000000000000000435550000000000000000000000000004396613700000000000000000000435537500000000000000000000000004316224800000000000000000000435525000000000000000000000000003846868700000000000000000000435512500000000000000000000000003837346800000000000000000000435500000000000000000000000000003914757200000000000000000000435487500000000000000000000000004047380500000000000000000000435475000000000000000000000000003914119100000000000000000000435462500000000000000000000000003770908800000000000000000000435450000000000000000000000000004134765600000000000000000000435437500000000000000000000000004197956700000000000000000000435425000000000000000000000000004014582100000000000000000000435412500000000000000000000000004008866500000000000000000000435400000000000000000000,
    4220004300000000000000000000436987500000000000000000000000004331326400000000000000000000436975000000000000000000000000004091134200000000000000000000436962500000000000000000000000003854604400000000000000000000436950000000000000000000000000003965359000000000000000000000436937500000000000000000000000004270395900000000000000000000436925000000000000000000000000003936563600000000000000000000436912500000000000000000000000003941887500000000000000000000436900000000000000000000000000003841655200000000000000000000436887500000000000000000000000003952166100000000000000000000436875000000000000000000000000004076578400000000000000000000436862500000000000000000000000004030720900000000000000000000436850000000000000000000000000003621135800000000000000000000436837500000000000000000000000003800285600000000000000000000436825000000000000000000000000004010482700000000000000000000436812500000000000000000000000004060327700000000000000000000436800000000000000000000000000004314234700000000000000000000436787500000000000000000000000004374010700000000000000000000436775000000000000000000000000004256480100000000000000000000436762500000000000000000000000004155689100000000000000000000436750000000000000000000000000003984322500000000000000000000436737500000000000000000000000003968304100000000000000000000436725000000000000000000000000003868709000000000000000000000436712500000000000000000000000003947948400000000000000000000436700000000000000000000000000003863943500000000000000000000436687500000000000000000000000003875858600000000000000000000436675000000000000000000000000003853727500000000000000000000436662500000000000000000000000004246529000000000000000000000436650000000000000000000000000003859684700000000000000000000436637500000000000000000000000004052837200000000000000000000436625000000000000000000000000004070813600000000000000000000436612500000000000000000000000004022836600000000000000000000436600000000000000000000000000004217432100000000000000000000436587500000000000000000000000004146844900000000000000000000436575000000000000000000000000003967322600000000000000000000436562500000000000000000000000004038147400000000000000000000436550000000000000000000000000003971010400000000000000000000436537500000000000000000000000004156296600000000000000000000436525000000000000000000000000004291810100000000000000000000436512500000000000000000000000005307428800000000000000000000436500000000000000000000000000005212077900000000000000000000436487500000000000000000000000004042914400000000000000000000436475000000000000000000000000003739726700000000000000000000436462500000000000000000000000003527329900000000000000000000436450000000000000000000000000003833694200000000000000000000436437500000000000000000000000003992811900000000000000000000436425000000000000000000000000004068762000000000000000000000436412500000000000000000000000004100973000000000000000000000436400000000000000000000000000003896487700000000000000000000436387500000000000000000000000003740407500000000000000000000436375000000000000000000000000003898115300000000000000000000436362500000000000000000000000004238649300000000000000000000436350000000000000000000000000004234567400000000000000000000436337500000000000000000000000004036007800000000000000000000436325000000000000000000000000004009331800000000000000000000436312500000000000000000000000003922175700000000000000000000436300000000000000000000000000003944961400000000000000000000436287500000000000000000000000003933764700000000000000000000436275000000000000000000000000004067331500000000000000000000436262500000000000000000000000003873522200000000000000000000436250000000000000000000000000004131929300000000000000000000436237500000000000000000000000004073845800000000000000000000436225000000000000000000000000003989790900000000000000000000436212500000000000000000000000004164429100000000000000000000436200000000000000000000,
    4416615200000000000000000000437787500000000000000000000000004310676500000000000000000000437775000000000000000000000000004023860200000000000000000000437762500000000000000000000000003784029300000000000000000000437750000000000000000000000000003526674900000000000000000000437737500000000000000000000000003652642400000000000000000000437725000000000000000000000000004078152000000000000000000000437712500000000000000000000000003927972000000000000000000000437700000000000000000000000000004110839600000000000000000000437687500000000000000000000000004050407000000000000000000000437675000000000000000000000000004044865400000000000000000000437662500000000000000000000000003853354100000000000000000000437650000000000000000000000000003923484700000000000000000000437637500000000000000000000000003796943000000000000000000000437625000000000000000000000000003731273500000000000000000000437612500000000000000000000000003926026800000000000000000000437600000000000000000000000000003727807000000000000000000000437587500000000000000000000000003922622300000000000000000000437575000000000000000000000000004016857500000000000000000000437562500000000000000000000000004045048300000000000000000000437550000000000000000000000000004226201900000000000000000000437537500000000000000000000000003958124800000000000000000000437525000000000000000000000000004066626700000000000000000000437512500000000000000000000000003856150700000000000000000000437500000000000000000000000000003969806800000000000000000000437487500000000000000000000000004190863500000000000000000000437475000000000000000000000000003948036600000000000000000000437462500000000000000000000000004008929600000000000000000000437450000000000000000000000000003953439000000000000000000000437437500000000000000000000000003981354400000000000000000000437425000000000000000000000000004145019600000000000000000000437412500000000000000000000000004242615000000000000000000000437400000000000000000000000000004122146400000000000000000000437387500000000000000000000000004153911400000000000000000000437375000000000000000000000000003862720700000000000000000000437362500000000000000000000000004040864100000000000000000000437350000000000000000000000000004147043900000000000000000000437337500000000000000000000000004001406500000000000000000000437325000000000000000000000000003827600500000000000000000000437312500000000000000000000000004030877500000000000000000000437300000000000000000000000000004010444300000000000000000000437287500000000000000000000000003796311000000000000000000000437275000000000000000000000000003806759800000000000000000000437262500000000000000000000000003930563500000000000000000000437250000000000000000000000000004468608000000000000000000000437237500000000000000000000000004634013100000000000000000000437225000000000000000000000000004338980600000000000000000000437212500000000000000000000000004105715500000000000000000000437200000000000000000000000000003924169800000000000000000000437187500000000000000000000000004225804200000000000000000000437175000000000000000000000000003995359500000000000000000000437162500000000000000000000000004211599300000000000000000000437150000000000000000000000000004094073400000000000000000000437137500000000000000000000000003774028700000000000000000000437125000000000000000000000000003643232100000000000000000000437112500000000000000000000000003753481600000000000000000000437100000000000000000000000000003774625900000000000000000000437087500000000000000000000000004092881400000000000000000000437075000000000000000000000000004064584400000000000000000000437062500000000000000000000000004167525500000000000000000000437050000000000000000000000000003939751200000000000000000000437037500000000000000000000000003857249400000000000000000000437025000000000000000000000000003677477100000000000000000000437012500000000000000000000000003891161300000000000000000000437000000000000000000000,
    4225639500000000000000000000438587500000000000000000000000004042865300000000000000000000438575000000000000000000000000004189115500000000000000000000438562500000000000000000000000004077087800000000000000000000438550000000000000000000000000003908822200000000000000000000438537500000000000000000000000004042097200000000000000000000438525000000000000000000000000004057054000000000000000000000438512500000000000000000000000004085484300000000000000000000438500000000000000000000000000003818218900000000000000000000438487500000000000000000000000004069506000000000000000000000438475000000000000000000000000004144753000000000000000000000438462500000000000000000000000003754980200000000000000000000438450000000000000000000000000004019913700000000000000000000438437500000000000000000000000004118530100000000000000000000438425000000000000000000000000004425147400000000000000000000438412500000000000000000000000003809738900000000000000000000438400000000000000000000000000003891131200000000000000000000438387500000000000000000000000004200337500000000000000000000438375000000000000000000000000004279202600000000000000000000438362500000000000000000000000004098402600000000000000000000438350000000000000000000000000003878064800000000000000000000438337500000000000000000000000004031696300000000000000000000438325000000000000000000000000004186476400000000000000000000438312500000000000000000000000004011071800000000000000000000438300000000000000000000000000003906416700000000000000000000438287500000000000000000000000004057785400000000000000000000438275000000000000000000000000004067884200000000000000000000438262500000000000000000000000004156413500000000000000000000438250000000000000000000000000004284760600000000000000000000438237500000000000000000000000003995960800000000000000000000438225000000000000000000000000003912830400000000000000000000438212500000000000000000000000003961451200000000000000000000438200000000000000000000000000004034658200000000000000000000438187500000000000000000000000004070409700000000000000000000438175000000000000000000000000003826548400000000000000000000438162500000000000000000000000003741752400000000000000000000438150000000000000000000000000004061190400000000000000000000438137500000000000000000000000004275129300000000000000000000438125000000000000000000000000004149315700000000000000000000438112500000000000000000000000004233133600000000000000000000438100000000000000000000000000004264271900000000000000000000438087500000000000000000000000004193887000000000000000000000438075000000000000000000000000004100890800000000000000000000438062500000000000000000000000004049785800000000000000000000438050000000000000000000000000004245582300000000000000000000438037500000000000000000000000004328632100000000000000000000438025000000000000000000000000003803544100000000000000000000438012500000000000000000000000004215331700000000000000000000438000000000000000000000000000004255851400000000000000000000437987500000000000000000000000003739700100000000000000000000437975000000000000000000000000003965053300000000000000000000437962500000000000000000000000004395977900000000000000000000437950000000000000000000000000004434184900000000000000000000437937500000000000000000000000003850025000000000000000000000437925000000000000000000000000003870411600000000000000000000437912500000000000000000000000004108363900000000000000000000437900000000000000000000000000004196580100000000000000000000437887500000000000000000000000004293156200000000000000000000437875000000000000000000000000004189596600000000000000000000437862500000000000000000000000004031956500000000000000000000437850000000000000000000000000004069075800000000000000000000437837500000000000000000000000004346544900000000000000000000437825000000000000000000000000003975086900000000000000000000437812500000000000000000000000003928444000000000000000000000437800000000000000000000,
    4449421700000000000000000000439387500000000000000000000000004473941600000000000000000000439375000000000000000000000000004239467100000000000000000000439362500000000000000000000000004038645900000000000000000000439350000000000000000000000000003757106100000000000000000000439337500000000000000000000000003768579700000000000000000000439325000000000000000000000000004061064000000000000000000000439312500000000000000000000000004298556000000000000000000000439300000000000000000000000000003876326900000000000000000000439287500000000000000000000000003754595500000000000000000000439275000000000000000000000000004156551500000000000000000000439262500000000000000000000000004193680800000000000000000000439250000000000000000000000000004015280900000000000000000000439237500000000000000000000000004086501000000000000000000000439225000000000000000000000000004238873600000000000000000000439212500000000000000000000000004360345500000000000000000000439200000000000000000000000000004234491600000000000000000000439187500000000000000000000000003947530800000000000000000000439175000000000000000000000000003964304900000000000000000000439162500000000000000000000000004000212700000000000000000000439150000000000000000000000000003973226100000000000000000000439137500000000000000000000000004116022700000000000000000000439125000000000000000000000000003723523200000000000000000000439112500000000000000000000000003962672400000000000000000000439100000000000000000000000000003857764700000000000000000000439087500000000000000000000000004076971900000000000000000000439075000000000000000000000000004244624400000000000000000000439062500000000000000000000000004348650500000000000000000000439050000000000000000000000000004267778000000000000000000000439037500000000000000000000000004024338300000000000000000000439025000000000000000000000000004129836900000000000000000000439012500000000000000000000000003952724200000000000000000000439000000000000000000000000000003981162300000000000000000000438987500000000000000000000000003848152300000000000000000000438975000000000000000000000000003988526800000000000000000000438962500000000000000000000000003937734900000000000000000000438950000000000000000000000000004122483800000000000000000000438937500000000000000000000000003937281500000000000000000000438925000000000000000000000000003890504000000000000000000000438912500000000000000000000000003942418300000000000000000000438900000000000000000000000000003814198400000000000000000000438887500000000000000000000000003889583800000000000000000000438875000000000000000000000000004072864900000000000000000000438862500000000000000000000000004109060000000000000000000000438850000000000000000000000000003777851900000000000000000000438837500000000000000000000000003957519800000000000000000000438825000000000000000000000000004223587700000000000000000000438812500000000000000000000000004128565700000000000000000000438800000000000000000000000000004053508400000000000000000000438787500000000000000000000000004028964100000000000000000000438775000000000000000000000000004096558600000000000000000000438762500000000000000000000000004018515000000000000000000000438750000000000000000000000000003724392500000000000000000000438737500000000000000000000000003926587300000000000000000000438725000000000000000000000000004314920600000000000000000000438712500000000000000000000000004570500000000000000000000000438700000000000000000000000000004204796400000000000000000000438687500000000000000000000000004223660100000000000000000000438675000000000000000000000000004499782100000000000000000000438662500000000000000000000000004421431400000000000000000000438650000000000000000000000000004155597200000000000000000000438637500000000000000000000000003747606500000000000000000000438625000000000000000000000000004004614200000000000000000000438612500000000000000000000000004140461900000000000000000000438600000000000000000000,
    4209081700000000000000000000440187500000000000000000000000004388335200000000000000000000440175000000000000000000000000004605193000000000000000000000440162500000000000000000000000004760660200000000000000000000440150000000000000000000000000004447580800000000000000000000440137500000000000000000000000004074413100000000000000000000440125000000000000000000000000004138674200000000000000000000440112500000000000000000000000004320609300000000000000000000440100000000000000000000000000004315276800000000000000000000440087500000000000000000000000004319033500000000000000000000440075000000000000000000000000004187475700000000000000000000440062500000000000000000000000004063163200000000000000000000440050000000000000000000000000004186783600000000000000000000440037500000000000000000000000004012167300000000000000000000440025000000000000000000000000004224146000000000000000000000440012500000000000000000000000004242336900000000000000000000440000000000000000000000000000003771321200000000000000000000439987500000000000000000000000003681411800000000000000000000439975000000000000000000000000003937936500000000000000000000439962500000000000000000000000004122251000000000000000000000439950000000000000000000000000004375754100000000000000000000439937500000000000000000000000004307813600000000000000000000439925000000000000000000000000004307648500000000000000000000439912500000000000000000000000004173498600000000000000000000439900000000000000000000000000004233129700000000000000000000439887500000000000000000000000004172822600000000000000000000439875000000000000000000000000004116300500000000000000000000439862500000000000000000000000004334400200000000000000000000439850000000000000000000000000004261685800000000000000000000439837500000000000000000000000004231839400000000000000000000439825000000000000000000000000004006709400000000000000000000439812500000000000000000000000003832809100000000000000000000439800000000000000000000000000003814384100000000000000000000439787500000000000000000000000004127994100000000000000000000439775000000000000000000000000003907793000000000000000000000439762500000000000000000000000003747022900000000000000000000439750000000000000000000000000003917321800000000000000000000439737500000000000000000000000004343524800000000000000000000439725000000000000000000000000004217084200000000000000000000439712500000000000000000000000004288647400000000000000000000439700000000000000000000000000004326154700000000000000000000439687500000000000000000000000004251322200000000000000000000439675000000000000000000000000004033228100000000000000000000439662500000000000000000000000003876225800000000000000000000439650000000000000000000000000004081223900000000000000000000439637500000000000000000000000004074199800000000000000000000439625000000000000000000000000004274294800000000000000000000439612500000000000000000000000004217726900000000000000000000439600000000000000000000000000004086375000000000000000000000439587500000000000000000000000004171486700000000000000000000439575000000000000000000000000004117734900000000000000000000439562500000000000000000000000003874405100000000000000000000439550000000000000000000000000003754855500000000000000000000439537500000000000000000000000004301980500000000000000000000439525000000000000000000000000004519847700000000000000000000439512500000000000000000000000004200287000000000000000000000439500000000000000000000000000003996944800000000000000000000439487500000000000000000000000004184507600000000000000000000439475000000000000000000000000004488439600000000000000000000439462500000000000000000000000004358572900000000000000000000439450000000000000000000000000003961355800000000000000000000439437500000000000000000000000004022498000000000000000000000439425000000000000000000000000004163682600000000000000000000439412500000000000000000000000004185269500000000000000000000439400000000000000000000,
    4063711100000000000000000000440987500000000000000000000000003833707600000000000000000000440975000000000000000000000000004055466900000000000000000000440962500000000000000000000000003901601300000000000000000000440950000000000000000000000000004145245900000000000000000000440937500000000000000000000000004286174800000000000000000000440925000000000000000000000000004101033500000000000000000000440912500000000000000000000000004327664100000000000000000000440900000000000000000000000000004637705500000000000000000000440887500000000000000000000000004281510900000000000000000000440875000000000000000000000000004340100900000000000000000000440862500000000000000000000000004658281000000000000000000000440850000000000000000000000000004385790200000000000000000000440837500000000000000000000000004198962100000000000000000000440825000000000000000000000000004171254100000000000000000000440812500000000000000000000000004248440600000000000000000000440800000000000000000000000000003936866500000000000000000000440787500000000000000000000000003611172200000000000000000000440775000000000000000000000000003911673300000000000000000000440762500000000000000000000000004655445200000000000000000000440750000000000000000000000000004408698400000000000000000000440737500000000000000000000000003939340600000000000000000000440725000000000000000000000000004234218200000000000000000000440712500000000000000000000000004341395900000000000000000000440700000000000000000000000000004386792300000000000000000000440687500000000000000000000000004239966300000000000000000000440675000000000000000000000000004447356500000000000000000000440662500000000000000000000000004317950200000000000000000000440650000000000000000000000000003841097900000000000000000000440637500000000000000000000000003807373400000000000000000000440625000000000000000000000000003714501600000000000000000000440612500000000000000000000000003848824600000000000000000000440600000000000000000000000000004318182600000000000000000000440587500000000000000000000000004396551100000000000000000000440575000000000000000000000000004373497500000000000000000000440562500000000000000000000000004016578200000000000000000000440550000000000000000000000000003977311300000000000000000000440537500000000000000000000000004174031200000000000000000000440525000000000000000000000000004247634000000000000000000000440512500000000000000000000000004058165200000000000000000000440500000000000000000000000000004492628100000000000000000000440487500000000000000000000000004703570200000000000000000000440475000000000000000000000000004230927500000000000000000000440462500000000000000000000000004292885500000000000000000000440450000000000000000000000000004179624200000000000000000000440437500000000000000000000000004276060100000000000000000000440425000000000000000000000000004726707400000000000000000000440412500000000000000000000000004345350900000000000000000000440400000000000000000000000000004109331600000000000000000000440387500000000000000000000000004034656200000000000000000000440375000000000000000000000000004451618100000000000000000000440362500000000000000000000000004346991800000000000000000000440350000000000000000000000000004031400100000000000000000000440337500000000000000000000000004483396400000000000000000000440325000000000000000000000000004581482500000000000000000000440312500000000000000000000000004519295900000000000000000000440300000000000000000000000000004131309900000000000000000000440287500000000000000000000000004030660800000000000000000000440275000000000000000000000000004349484100000000000000000000440262500000000000000000000000004760906000000000000000000000440250000000000000000000000000004191604400000000000000000000440237500000000000000000000000004045396400000000000000000000440225000000000000000000000000004031987900000000000000000000440212500000000000000000000000004342093600000000000000000000440200000000000000000000,
    4144850000000000000000000000441787500000000000000000000000004043172400000000000000000000441775000000000000000000000000004098634400000000000000000000441762500000000000000000000000004307060400000000000000000000441750000000000000000000000000004449238900000000000000000000441737500000000000000000000000004590342800000000000000000000441725000000000000000000000000004505792700000000000000000000441712500000000000000000000000004046177800000000000000000000441700000000000000000000000000003785147500000000000000000000441687500000000000000000000000004070097000000000000000000000441675000000000000000000000000004074842200000000000000000000441662500000000000000000000000004227855600000000000000000000441650000000000000000000000000004342318700000000000000000000441637500000000000000000000000004637510500000000000000000000441625000000000000000000000000004443670600000000000000000000441612500000000000000000000000004534278900000000000000000000441600000000000000000000000000004667863500000000000000000000441587500000000000000000000000004124485700000000000000000000441575000000000000000000000000004111749000000000000000000000441562500000000000000000000000004358710900000000000000000000441550000000000000000000000000004287704800000000000000000000441537500000000000000000000000004260131800000000000000000000441525000000000000000000000000004687262200000000000000000000441512500000000000000000000000004805644200000000000000000000441500000000000000000000000000004419041200000000000000000000441487500000000000000000000000004319020800000000000000000000441475000000000000000000000000004360742400000000000000000000441462500000000000000000000000004249547100000000000000000000441450000000000000000000000000004258660500000000000000000000441437500000000000000000000000004127718900000000000000000000441425000000000000000000000000004346646100000000000000000000441412500000000000000000000000004442944900000000000000000000441400000000000000000000000000004515824900000000000000000000441387500000000000000000000000004826900600000000000000000000441375000000000000000000000000004363653000000000000000000000441362500000000000000000000000004613804000000000000000000000441350000000000000000000000000004222753700000000000000000000441337500000000000000000000000004238085400000000000000000000441325000000000000000000000000004272437200000000000000000000441312500000000000000000000000004259819800000000000000000000441300000000000000000000000000004442315200000000000000000000441287500000000000000000000000004346263000000000000000000000441275000000000000000000000000004095190600000000000000000000441262500000000000000000000000004298247600000000000000000000441250000000000000000000000000004874982500000000000000000000441237500000000000000000000000004580106900000000000000000000441225000000000000000000000000003942915200000000000000000000441212500000000000000000000000004080301900000000000000000000441200000000000000000000000000004306812600000000000000000000441187500000000000000000000000004390185400000000000000000000441175000000000000000000000000004392004200000000000000000000441162500000000000000000000000004447748000000000000000000000441150000000000000000000000000004420484900000000000000000000441137500000000000000000000000004128676200000000000000000000441125000000000000000000000000003841371500000000000000000000441112500000000000000000000000004291803400000000000000000000441100000000000000000000000000004268654500000000000000000000441087500000000000000000000000004055152900000000000000000000441075000000000000000000000000004032815400000000000000000000441062500000000000000000000000004448652700000000000000000000441050000000000000000000000000004319877800000000000000000000441037500000000000000000000000004168904500000000000000000000441025000000000000000000000000004325982600000000000000000000441012500000000000000000000000004138188800000000000000000000441000000000000000000000,
    4630706500000000000000000000442587500000000000000000000000004621982200000000000000000000442575000000000000000000000000004358275700000000000000000000442562500000000000000000000000004514733800000000000000000000442550000000000000000000000000004279319700000000000000000000442537500000000000000000000000004354313900000000000000000000442525000000000000000000000000004522211100000000000000000000442512500000000000000000000000004429895900000000000000000000442500000000000000000000000000004388169800000000000000000000442487500000000000000000000000004343369600000000000000000000442475000000000000000000000000004340639900000000000000000000442462500000000000000000000000004216564700000000000000000000442450000000000000000000000000004286837200000000000000000000442437500000000000000000000000004237029800000000000000000000442425000000000000000000000000004061978300000000000000000000442412500000000000000000000000004275614000000000000000000000442400000000000000000000000000004134704200000000000000000000442387500000000000000000000000003916732500000000000000000000442375000000000000000000000000004295164200000000000000000000442362500000000000000000000000004519003400000000000000000000442350000000000000000000000000004543346300000000000000000000442337500000000000000000000000004491753500000000000000000000442325000000000000000000000000004288573600000000000000000000442312500000000000000000000000004300583200000000000000000000442300000000000000000000000000004110251600000000000000000000442287500000000000000000000000004480826700000000000000000000442275000000000000000000000000004511680700000000000000000000442262500000000000000000000000004492824400000000000000000000442250000000000000000000000000004566196800000000000000000000442237500000000000000000000000004456231900000000000000000000442225000000000000000000000000004198675100000000000000000000442212500000000000000000000000003853185700000000000000000000442200000000000000000000000000004227133000000000000000000000442187500000000000000000000000004461199000000000000000000000442175000000000000000000000000004598809700000000000000000000442162500000000000000000000000004272128800000000000000000000442150000000000000000000000000004019400600000000000000000000442137500000000000000000000000004406928200000000000000000000442125000000000000000000000000004324009800000000000000000000442112500000000000000000000000004268674600000000000000000000442100000000000000000000000000004642086100000000000000000000442087500000000000000000000000004444149100000000000000000000442075000000000000000000000000004432058800000000000000000000442062500000000000000000000000004354981100000000000000000000442050000000000000000000000000004410411600000000000000000000442037500000000000000000000000004161026200000000000000000000442025000000000000000000000000004065348300000000000000000000442012500000000000000000000000004210894300000000000000000000442000000000000000000000000000004140382300000000000000000000441987500000000000000000000000004307390600000000000000000000441975000000000000000000000000004463457000000000000000000000441962500000000000000000000000004430485400000000000000000000441950000000000000000000000000004167468100000000000000000000441937500000000000000000000000004208505800000000000000000000441925000000000000000000000000004287989100000000000000000000441912500000000000000000000000004033322700000000000000000000441900000000000000000000000000004179973400000000000000000000441887500000000000000000000000004237789300000000000000000000441875000000000000000000000000004446220900000000000000000000441862500000000000000000000000004510836100000000000000000000441850000000000000000000000000004324639300000000000000000000441837500000000000000000000000004381690300000000000000000000441825000000000000000000000000004501291100000000000000000000441812500000000000000000000000004140053800000000000000000000441800000000000000000000,
    4831352000000000000000000000443387500000000000000000000000005004669000000000000000000000443375000000000000000000000000004876686100000000000000000000443362500000000000000000000000004538573500000000000000000000443350000000000000000000000000004644901500000000000000000000443337500000000000000000000000004758481200000000000000000000443325000000000000000000000000004810891000000000000000000000443312500000000000000000000000004757104500000000000000000000443300000000000000000000000000004520407300000000000000000000443287500000000000000000000000004174645300000000000000000000443275000000000000000000000000004224138100000000000000000000443262500000000000000000000000004749114900000000000000000000443250000000000000000000000000004507201900000000000000000000443237500000000000000000000000004279298000000000000000000000443225000000000000000000000000004407496800000000000000000000443212500000000000000000000000004394502700000000000000000000443200000000000000000000000000004092358300000000000000000000443187500000000000000000000000004070756500000000000000000000443175000000000000000000000000004168461100000000000000000000443162500000000000000000000000004347278100000000000000000000443150000000000000000000000000004422016200000000000000000000443137500000000000000000000000004444761800000000000000000000443125000000000000000000000000004456150900000000000000000000443112500000000000000000000000004281117500000000000000000000443100000000000000000000000000004255163800000000000000000000443087500000000000000000000000004210402100000000000000000000443075000000000000000000000000004294237100000000000000000000443062500000000000000000000000004372912600000000000000000000443050000000000000000000000000004546192900000000000000000000443037500000000000000000000000004275397300000000000000000000443025000000000000000000000000004162709500000000000000000000443012500000000000000000000000004486790900000000000000000000443000000000000000000000000000004558438700000000000000000000442987500000000000000000000000004372341900000000000000000000442975000000000000000000000000004482435700000000000000000000442962500000000000000000000000004529870900000000000000000000442950000000000000000000000000004472738700000000000000000000442937500000000000000000000000004391767000000000000000000000442925000000000000000000000000004458677500000000000000000000442912500000000000000000000000004720258000000000000000000000442900000000000000000000000000004392310700000000000000000000442887500000000000000000000000004281989800000000000000000000442875000000000000000000000000004111493600000000000000000000442862500000000000000000000000003945187500000000000000000000442850000000000000000000000000004400712900000000000000000000442837500000000000000000000000004226421500000000000000000000442825000000000000000000000000004339415400000000000000000000442812500000000000000000000000004254168200000000000000000000442800000000000000000000000000004352019900000000000000000000442787500000000000000000000000004246975300000000000000000000442775000000000000000000000000004357418000000000000000000000442762500000000000000000000000004652070900000000000000000000442750000000000000000000000000003638864300000000000000000000442737500000000000000000000000003940298300000000000000000000442725000000000000000000000000004218113100000000000000000000442712500000000000000000000000004303848800000000000000000000442700000000000000000000000000004193185000000000000000000000442687500000000000000000000000004193392500000000000000000000442675000000000000000000000000004177811000000000000000000000442662500000000000000000000000004279931200000000000000000000442650000000000000000000000000004182676900000000000000000000442637500000000000000000000000004180411500000000000000000000442625000000000000000000000000004043701500000000000000000000442612500000000000000000000000004278077500000000000000000000442600000000000000000000,
    4470145700000000000000000000444187500000000000000000000000004361423100000000000000000000444175000000000000000000000000004471040000000000000000000000444162500000000000000000000000004326077100000000000000000000444150000000000000000000000000004539960400000000000000000000444137500000000000000000000000004455309100000000000000000000444125000000000000000000000000004559594600000000000000000000444112500000000000000000000000004486331900000000000000000000444100000000000000000000000000004385486100000000000000000000444087500000000000000000000000004576272300000000000000000000444075000000000000000000000000004619579100000000000000000000444062500000000000000000000000004372839900000000000000000000444050000000000000000000000000003957426100000000000000000000444037500000000000000000000000007023027800000000000000000000444025000000000000000000000000015684100000000000000000000000444012500000000000000000000000010297447000000000000000000000444000000000000000000000000000003641598000000000000000000000443987500000000000000000000000004269659300000000000000000000443975000000000000000000000000004357958600000000000000000000443962500000000000000000000000004491830400000000000000000000443950000000000000000000000000004386072200000000000000000000443937500000000000000000000000004135792300000000000000000000443925000000000000000000000000004400688200000000000000000000443912500000000000000000000000004406963700000000000000000000443900000000000000000000000000004492865500000000000000000000443887500000000000000000000000004391949100000000000000000000443875000000000000000000000000004725045400000000000000000000443862500000000000000000000000004637854500000000000000000000443850000000000000000000000000004579478600000000000000000000443837500000000000000000000000004627159800000000000000000000443825000000000000000000000000004687121700000000000000000000443812500000000000000000000000004580857500000000000000000000443800000000000000000000000000004591812600000000000000000000443787500000000000000000000000004253242000000000000000000000443775000000000000000000000000004302648900000000000000000000443762500000000000000000000000004496217100000000000000000000443750000000000000000000000000004801195300000000000000000000443737500000000000000000000000004733628600000000000000000000443725000000000000000000000000004686771000000000000000000000443712500000000000000000000000004860914000000000000000000000443700000000000000000000000000004989830500000000000000000000443687500000000000000000000000004500524000000000000000000000443675000000000000000000000000004802662700000000000000000000443662500000000000000000000000004603051800000000000000000000443650000000000000000000000000004445124800000000000000000000443637500000000000000000000000004435857900000000000000000000443625000000000000000000000000004014138200000000000000000000443612500000000000000000000000003970082100000000000000000000443600000000000000000000000000004218946700000000000000000000443587500000000000000000000000004317660000000000000000000000443575000000000000000000000000004260105000000000000000000000443562500000000000000000000000004407918600000000000000000000443550000000000000000000000000004677608900000000000000000000443537500000000000000000000000004378508900000000000000000000443525000000000000000000000000004593701700000000000000000000443512500000000000000000000000004592918300000000000000000000443500000000000000000000000000004722488300000000000000000000443487500000000000000000000000004193679600000000000000000000443475000000000000000000000000004145441700000000000000000000443462500000000000000000000000004154931600000000000000000000443450000000000000000000000000004426721700000000000000000000443437500000000000000000000000004688630600000000000000000000443425000000000000000000000000004314140400000000000000000000443412500000000000000000000000004269139800000000000000000000443400000000000000000000,
    4613347900000000000000000000444987500000000000000000000000004828251800000000000000000000444975000000000000000000000000004907955400000000000000000000444962500000000000000000000000004982837300000000000000000000444950000000000000000000000000004818172900000000000000000000444937500000000000000000000000004830743400000000000000000000444925000000000000000000000000005054604700000000000000000000444912500000000000000000000000005169995900000000000000000000444900000000000000000000000000004880981000000000000000000000444887500000000000000000000000004717129600000000000000000000444875000000000000000000000000004603335700000000000000000000444862500000000000000000000000004646954200000000000000000000444850000000000000000000000000004445351500000000000000000000444837500000000000000000000000004521428400000000000000000000444825000000000000000000000000004395745700000000000000000000444812500000000000000000000000004650637800000000000000000000444800000000000000000000000000004967505300000000000000000000444787500000000000000000000000004717318200000000000000000000444775000000000000000000000000004522060800000000000000000000444762500000000000000000000000004749383900000000000000000000444750000000000000000000000000004461554400000000000000000000444737500000000000000000000000004371870400000000000000000000444725000000000000000000000000004420026600000000000000000000444712500000000000000000000000004442478800000000000000000000444700000000000000000000000000004791884200000000000000000000444687500000000000000000000000005107188800000000000000000000444675000000000000000000000000005120817000000000000000000000444662500000000000000000000000004722189500000000000000000000444650000000000000000000000000004371050000000000000000000000444637500000000000000000000000004640423600000000000000000000444625000000000000000000000000004321518200000000000000000000444612500000000000000000000000004250820600000000000000000000444600000000000000000000000000004813222300000000000000000000444587500000000000000000000000004720508700000000000000000000444575000000000000000000000000005027811700000000000000000000444562500000000000000000000000005025632100000000000000000000444550000000000000000000000000005019084900000000000000000000444537500000000000000000000000004891784200000000000000000000444525000000000000000000000000004595960300000000000000000000444512500000000000000000000000004417706400000000000000000000444500000000000000000000000000004457178400000000000000000000444487500000000000000000000000004603592900000000000000000000444475000000000000000000000000004277075800000000000000000000444462500000000000000000000000004500312600000000000000000000444450000000000000000000000000004525816800000000000000000000444437500000000000000000000000004453663800000000000000000000444425000000000000000000000000004699198500000000000000000000444412500000000000000000000000004638253800000000000000000000444400000000000000000000000000004474171500000000000000000000444387500000000000000000000000004416876200000000000000000000444375000000000000000000000000004820477700000000000000000000444362500000000000000000000000004718503000000000000000000000444350000000000000000000000000004862324000000000000000000000444337500000000000000000000000005274889200000000000000000000444325000000000000000000000000004848576200000000000000000000444312500000000000000000000000004593820900000000000000000000444300000000000000000000000000004557533400000000000000000000444287500000000000000000000000004413511400000000000000000000444275000000000000000000000000004822277100000000000000000000444262500000000000000000000000005260203700000000000000000000444250000000000000000000000000004342335200000000000000000000444237500000000000000000000000004402322400000000000000000000444225000000000000000000000000004157763800000000000000000000444212500000000000000000000000004327814600000000000000000000444200000000000000000000,
    4963742400000000000000000000445787500000000000000000000000005098506400000000000000000000445775000000000000000000000000004982165500000000000000000000445762500000000000000000000000005001723000000000000000000000445750000000000000000000000000005331157000000000000000000000445737500000000000000000000000004953039000000000000000000000445725000000000000000000000000004915326300000000000000000000445712500000000000000000000000005030133000000000000000000000445700000000000000000000000000005038075200000000000000000000445687500000000000000000000000005087934900000000000000000000445675000000000000000000000000004804968200000000000000000000445662500000000000000000000000004678950300000000000000000000445650000000000000000000000000005047537900000000000000000000445637500000000000000000000000004951265400000000000000000000445625000000000000000000000000004491156000000000000000000000445612500000000000000000000000004771682400000000000000000000445600000000000000000000000000004990460200000000000000000000445587500000000000000000000000005150128800000000000000000000445575000000000000000000000000005172078500000000000000000000445562500000000000000000000000004786408900000000000000000000445550000000000000000000000000004366980000000000000000000000445537500000000000000000000000004419275300000000000000000000445525000000000000000000000000004794455000000000000000000000445512500000000000000000000000004477225100000000000000000000445500000000000000000000000000004564015300000000000000000000445487500000000000000000000000004701662900000000000000000000445475000000000000000000000000004966403400000000000000000000445462500000000000000000000000005174597900000000000000000000445450000000000000000000000000004703198900000000000000000000445437500000000000000000000000004964579900000000000000000000445425000000000000000000000000004730874000000000000000000000445412500000000000000000000000004824290400000000000000000000445400000000000000000000000000004792042200000000000000000000445387500000000000000000000000005104885100000000000000000000445375000000000000000000000000004880162500000000000000000000445362500000000000000000000000004807186700000000000000000000445350000000000000000000000000004801867300000000000000000000445337500000000000000000000000004788715500000000000000000000445325000000000000000000000000004968936800000000000000000000445312500000000000000000000000005088143800000000000000000000445300000000000000000000000000005114151100000000000000000000445287500000000000000000000000005100247000000000000000000000445275000000000000000000000000004841090500000000000000000000445262500000000000000000000000004894745900000000000000000000445250000000000000000000000000005091516300000000000000000000445237500000000000000000000000004954714200000000000000000000445225000000000000000000000000005140481300000000000000000000445212500000000000000000000000005021958800000000000000000000445200000000000000000000000000004737469800000000000000000000445187500000000000000000000000004780027600000000000000000000445175000000000000000000000000004831497300000000000000000000445162500000000000000000000000004753627800000000000000000000445150000000000000000000000000004596950100000000000000000000445137500000000000000000000000004803797700000000000000000000445125000000000000000000000000004777418900000000000000000000445112500000000000000000000000004694170600000000000000000000445100000000000000000000000000005087427300000000000000000000445087500000000000000000000000005120137800000000000000000000445075000000000000000000000000004736023600000000000000000000445062500000000000000000000000004902209500000000000000000000445050000000000000000000000000004684746200000000000000000000445037500000000000000000000000004701149400000000000000000000445025000000000000000000000000004720285900000000000000000000445012500000000000000000000000004659677300000000000000000000445000000000000000000000,
    5847539300000000000000000000446587500000000000000000000000005913597600000000000000000000446575000000000000000000000000005297859200000000000000000000446562500000000000000000000000005220285800000000000000000000446550000000000000000000000000004906036300000000000000000000446537500000000000000000000000005173302000000000000000000000446525000000000000000000000000004842525800000000000000000000446512500000000000000000000000005014523300000000000000000000446500000000000000000000000000005160852500000000000000000000446487500000000000000000000000005460007700000000000000000000446475000000000000000000000000005739145300000000000000000000446462500000000000000000000000005334585400000000000000000000446450000000000000000000000000005292237400000000000000000000446437500000000000000000000000005521634000000000000000000000446425000000000000000000000000005502282200000000000000000000446412500000000000000000000000005010258800000000000000000000446400000000000000000000000000005399332700000000000000000000446387500000000000000000000000005393772200000000000000000000446375000000000000000000000000004974307500000000000000000000446362500000000000000000000000005630947500000000000000000000446350000000000000000000000000005171812500000000000000000000446337500000000000000000000000004781797700000000000000000000446325000000000000000000000000005021031600000000000000000000446312500000000000000000000000004751225000000000000000000000446300000000000000000000000000005124698900000000000000000000446287500000000000000000000000005460525400000000000000000000446275000000000000000000000000005272851700000000000000000000446262500000000000000000000000005325751100000000000000000000446250000000000000000000000000004928970900000000000000000000446237500000000000000000000000005397101200000000000000000000446225000000000000000000000000005578675400000000000000000000446212500000000000000000000000005249414400000000000000000000446200000000000000000000000000005431053000000000000000000000446187500000000000000000000000005665667600000000000000000000446175000000000000000000000000005653800000000000000000000000446162500000000000000000000000005392758900000000000000000000446150000000000000000000000000005342160500000000000000000000446137500000000000000000000000005380773600000000000000000000446125000000000000000000000000005332639000000000000000000000446112500000000000000000000000004882161200000000000000000000446100000000000000000000000000004656247100000000000000000000446087500000000000000000000000005212523900000000000000000000446075000000000000000000000000005340582300000000000000000000446062500000000000000000000000004842064600000000000000000000446050000000000000000000000000004805944400000000000000000000446037500000000000000000000000005313085700000000000000000000446025000000000000000000000000005459798800000000000000000000446012500000000000000000000000005430792500000000000000000000446000000000000000000000000000005094991300000000000000000000445987500000000000000000000000004968450700000000000000000000445975000000000000000000000000005177739800000000000000000000445962500000000000000000000000005736793400000000000000000000445950000000000000000000000000005514521700000000000000000000445937500000000000000000000000004917109600000000000000000000445925000000000000000000000000004994810200000000000000000000445912500000000000000000000000004991509700000000000000000000445900000000000000000000000000005011441300000000000000000000445887500000000000000000000000005151298000000000000000000000445875000000000000000000000000005710331800000000000000000000445862500000000000000000000000005385011400000000000000000000445850000000000000000000000000005267208200000000000000000000445837500000000000000000000000005251496200000000000000000000445825000000000000000000000000004948735400000000000000000000445812500000000000000000000000004966769100000000000000000000445800000000000000000000,
    6148529300000000000000000000447387500000000000000000000000005939371500000000000000000000447375000000000000000000000000006317256300000000000000000000447362500000000000000000000000006082342000000000000000000000447350000000000000000000000000005828658400000000000000000000447337500000000000000000000000005584024100000000000000000000447325000000000000000000000000005626443400000000000000000000447312500000000000000000000000005651928000000000000000000000447300000000000000000000000000005597411900000000000000000000447287500000000000000000000000005698532200000000000000000000447275000000000000000000000000005230547200000000000000000000447262500000000000000000000000005506248900000000000000000000447250000000000000000000000000005498441500000000000000000000447237500000000000000000000000005367430200000000000000000000447225000000000000000000000000005571705700000000000000000000447212500000000000000000000000005164165500000000000000000000447200000000000000000000000000005361311200000000000000000000447187500000000000000000000000005514999900000000000000000000447175000000000000000000000000005569006300000000000000000000447162500000000000000000000000005406378800000000000000000000447150000000000000000000000000006439419800000000000000000000447137500000000000000000000000006420459200000000000000000000447125000000000000000000000000005417686600000000000000000000447112500000000000000000000000005716895000000000000000000000447100000000000000000000000000005643852800000000000000000000447087500000000000000000000000005215792400000000000000000000447075000000000000000000000000005151912500000000000000000000447062500000000000000000000000005256199000000000000000000000447050000000000000000000000000005255834300000000000000000000447037500000000000000000000000004890882100000000000000000000447025000000000000000000000000005390993900000000000000000000447012500000000000000000000000005510043800000000000000000000447000000000000000000000000000005346518100000000000000000000446987500000000000000000000000005205713900000000000000000000446975000000000000000000000000005988246900000000000000000000446962500000000000000000000000005898617300000000000000000000446950000000000000000000000000005840930500000000000000000000446937500000000000000000000000005420855600000000000000000000446925000000000000000000000000005026711300000000000000000000446912500000000000000000000000005042901000000000000000000000446900000000000000000000000000005363334300000000000000000000446887500000000000000000000000005416448600000000000000000000446875000000000000000000000000005012195600000000000000000000446862500000000000000000000000004490439100000000000000000000446850000000000000000000000000004858124800000000000000000000446837500000000000000000000000005529657300000000000000000000446825000000000000000000000000005528631500000000000000000000446812500000000000000000000000005126391800000000000000000000446800000000000000000000000000005522079700000000000000000000446787500000000000000000000000005728202300000000000000000000446775000000000000000000000000005742483900000000000000000000446762500000000000000000000000005304997300000000000000000000446750000000000000000000000000005222265300000000000000000000446737500000000000000000000000005584534300000000000000000000446725000000000000000000000000005288890000000000000000000000446712500000000000000000000000005364877600000000000000000000446700000000000000000000000000005789845600000000000000000000446687500000000000000000000000005297945400000000000000000000446675000000000000000000000000005449384700000000000000000000446662500000000000000000000000005534862800000000000000000000446650000000000000000000000000005183516800000000000000000000446637500000000000000000000000005504344500000000000000000000446625000000000000000000000000005531034400000000000000000000446612500000000000000000000000005722651100000000000000000000446600000000000000000000,
    6523414200000000000000000000448187500000000000000000000000006838675100000000000000000000448175000000000000000000000000006435958600000000000000000000448162500000000000000000000000005815936000000000000000000000448150000000000000000000000000005778655800000000000000000000448137500000000000000000000000005977656200000000000000000000448125000000000000000000000000006742063800000000000000000000448112500000000000000000000000007501887800000000000000000000448100000000000000000000000000007683285900000000000000000000448087500000000000000000000000006545366800000000000000000000448075000000000000000000000000006650227800000000000000000000448062500000000000000000000000007003094600000000000000000000448050000000000000000000000000007320674000000000000000000000448037500000000000000000000000006511331900000000000000000000448025000000000000000000000000006213242100000000000000000000448012500000000000000000000000005979546300000000000000000000448000000000000000000000000000006043062600000000000000000000447987500000000000000000000000006341471500000000000000000000447975000000000000000000000000005891147800000000000000000000447962500000000000000000000000006388550100000000000000000000447950000000000000000000000000006372051300000000000000000000447937500000000000000000000000006024566300000000000000000000447925000000000000000000000000006402075000000000000000000000447912500000000000000000000000006910795700000000000000000000447900000000000000000000000000006149695900000000000000000000447887500000000000000000000000006430517100000000000000000000447875000000000000000000000000006303362100000000000000000000447862500000000000000000000000006552830100000000000000000000447850000000000000000000000000006614058000000000000000000000447837500000000000000000000000006436946600000000000000000000447825000000000000000000000000006265399700000000000000000000447812500000000000000000000000006077923200000000000000000000447800000000000000000000000000006262572400000000000000000000447787500000000000000000000000006311089400000000000000000000447775000000000000000000000000006070006800000000000000000000447762500000000000000000000000005746192500000000000000000000447750000000000000000000000000006345524800000000000000000000447737500000000000000000000000006392253900000000000000000000447725000000000000000000000000005965221200000000000000000000447712500000000000000000000000005967996600000000000000000000447700000000000000000000000000006129432500000000000000000000447687500000000000000000000000006158539600000000000000000000447675000000000000000000000000006126581200000000000000000000447662500000000000000000000000006528642500000000000000000000447650000000000000000000000000006175257400000000000000000000447637500000000000000000000000005970870600000000000000000000447625000000000000000000000000005723371400000000000000000000447612500000000000000000000000005891924400000000000000000000447600000000000000000000000000006039477700000000000000000000447587500000000000000000000000005736370800000000000000000000447575000000000000000000000000005507927900000000000000000000447562500000000000000000000000005728524300000000000000000000447550000000000000000000000000006011825500000000000000000000447537500000000000000000000000005994331400000000000000000000447525000000000000000000000000005790527100000000000000000000447512500000000000000000000000005976516000000000000000000000447500000000000000000000000000006001666000000000000000000000447487500000000000000000000000006242349400000000000000000000447475000000000000000000000000006284684000000000000000000000447462500000000000000000000000005859067600000000000000000000447450000000000000000000000000006229149000000000000000000000447437500000000000000000000000006509960000000000000000000000447425000000000000000000000000006493416300000000000000000000447412500000000000000000000000006397194500000000000000000000447400000000000000000000,
    3885836700000000000000000000448987500000000000000000000000003876474600000000000000000000448975000000000000000000000000003592812200000000000000000000448962500000000000000000000000003640684100000000000000000000448950000000000000000000000000003921692500000000000000000000448937500000000000000000000000003966456500000000000000000000448925000000000000000000000000003664526900000000000000000000448912500000000000000000000000003743160700000000000000000000448900000000000000000000000000003998428200000000000000000000448887500000000000000000000000004201012300000000000000000000448875000000000000000000000000004052607400000000000000000000448862500000000000000000000000004325249300000000000000000000448850000000000000000000000000004426858700000000000000000000448837500000000000000000000000004086404900000000000000000000448825000000000000000000000000004222759400000000000000000000448812500000000000000000000000004380398900000000000000000000448800000000000000000000000000004526446900000000000000000000448787500000000000000000000000004498467400000000000000000000448775000000000000000000000000004886190800000000000000000000448762500000000000000000000000005041788900000000000000000000448750000000000000000000000000004415825000000000000000000000448737500000000000000000000000004278541900000000000000000000448725000000000000000000000000004685203300000000000000000000448712500000000000000000000000005248785500000000000000000000448700000000000000000000000000005300096500000000000000000000448687500000000000000000000000004657796500000000000000000000448675000000000000000000000000004596114100000000000000000000448662500000000000000000000000004775887400000000000000000000448650000000000000000000000000004585105700000000000000000000448637500000000000000000000000004914379200000000000000000000448625000000000000000000000000005128278300000000000000000000448612500000000000000000000000005105371000000000000000000000448600000000000000000000000000005028478300000000000000000000448587500000000000000000000000005013568700000000000000000000448575000000000000000000000000005231878000000000000000000000448562500000000000000000000000005392695500000000000000000000448550000000000000000000000000005606344800000000000000000000448537500000000000000000000000005651605900000000000000000000448525000000000000000000000000005422130500000000000000000000448512500000000000000000000000005300070400000000000000000000448500000000000000000000000000005073917300000000000000000000448487500000000000000000000000005946196200000000000000000000448475000000000000000000000000005989496500000000000000000000448462500000000000000000000000005646301400000000000000000000448450000000000000000000000000005564040700000000000000000000448437500000000000000000000000005530825900000000000000000000448425000000000000000000000000005483923100000000000000000000448412500000000000000000000000005434006300000000000000000000448400000000000000000000000000005518351200000000000000000000448387500000000000000000000000005410223300000000000000000000448375000000000000000000000000006181848600000000000000000000448362500000000000000000000000006384659800000000000000000000448350000000000000000000000000006357242300000000000000000000448337500000000000000000000000006545653300000000000000000000448325000000000000000000000000005929878300000000000000000000448312500000000000000000000000005997174000000000000000000000448300000000000000000000000000005878051300000000000000000000448287500000000000000000000000006022878400000000000000000000448275000000000000000000000000005983759800000000000000000000448262500000000000000000000000005832139600000000000000000000448250000000000000000000000000006221231400000000000000000000448237500000000000000000000000006658983800000000000000000000448225000000000000000000000000006576229900000000000000000000448212500000000000000000000000006502036500000000000000000000448200000000000000000000,
    3131046900000000000000000000449787500000000000000000000000002967802200000000000000000000449775000000000000000000000000002984062800000000000000000000449762500000000000000000000000003318724500000000000000000000449750000000000000000000000000003217571500000000000000000000449737500000000000000000000000003078924900000000000000000000449725000000000000000000000000003217012700000000000000000000449712500000000000000000000000003112198900000000000000000000449700000000000000000000000000002999795700000000000000000000449687500000000000000000000000002876490500000000000000000000449675000000000000000000000000002962054300000000000000000000449662500000000000000000000000003045975500000000000000000000449650000000000000000000000000002917897600000000000000000000449637500000000000000000000000003072539300000000000000000000449625000000000000000000000000003391927300000000000000000000449612500000000000000000000000003273911500000000000000000000449600000000000000000000000000003144607500000000000000000000449587500000000000000000000000003191638100000000000000000000449575000000000000000000000000003053221200000000000000000000449562500000000000000000000000003037296300000000000000000000449550000000000000000000000000002952471800000000000000000000449537500000000000000000000000002914912700000000000000000000449525000000000000000000000000002989263300000000000000000000449512500000000000000000000000002972943700000000000000000000449500000000000000000000000000003042569800000000000000000000449487500000000000000000000000003219987600000000000000000000449475000000000000000000000000003177694000000000000000000000449462500000000000000000000000002972458900000000000000000000449450000000000000000000000000003004431700000000000000000000449437500000000000000000000000002966681900000000000000000000449425000000000000000000000000002873386500000000000000000000449412500000000000000000000000002776966900000000000000000000449400000000000000000000000000002676697900000000000000000000449387500000000000000000000000002788341400000000000000000000449375000000000000000000000000003163268000000000000000000000449362500000000000000000000000003123821900000000000000000000449350000000000000000000000000002984615600000000000000000000449337500000000000000000000000003121617800000000000000000000449325000000000000000000000000003035304300000000000000000000449312500000000000000000000000002967362400000000000000000000449300000000000000000000000000003000289000000000000000000000449287500000000000000000000000002950256200000000000000000000449275000000000000000000000000002987806000000000000000000000449262500000000000000000000000003210462500000000000000000000449250000000000000000000000000003306704200000000000000000000449237500000000000000000000000003255334100000000000000000000449225000000000000000000000000003351341800000000000000000000449212500000000000000000000000003509269000000000000000000000449200000000000000000000000000003166014200000000000000000000449187500000000000000000000000003223819200000000000000000000449175000000000000000000000000003293356700000000000000000000449162500000000000000000000000003270735000000000000000000000449150000000000000000000000000003498793300000000000000000000449137500000000000000000000000003309373800000000000000000000449125000000000000000000000000003051418300000000000000000000449112500000000000000000000000003254822600000000000000000000449100000000000000000000000000003592559100000000000000000000449087500000000000000000000000003220393100000000000000000000449075000000000000000000000000003343895200000000000000000000449062500000000000000000000000003380874800000000000000000000449050000000000000000000000000003423514100000000000000000000449037500000000000000000000000003531922100000000000000000000449025000000000000000000000000003535056700000000000000000000449012500000000000000000000000003701443500000000000000000000449000000000000000000000,
    3167604300000000000000000000450587500000000000000000000000003177938700000000000000000000450575000000000000000000000000003124828000000000000000000000450562500000000000000000000000003141920700000000000000000000450550000000000000000000000000002958319500000000000000000000450537500000000000000000000000002834637700000000000000000000450525000000000000000000000000002839384300000000000000000000450512500000000000000000000000002985041500000000000000000000450500000000000000000000000000002977909200000000000000000000450487500000000000000000000000002922530100000000000000000000450475000000000000000000000000003094276600000000000000000000450462500000000000000000000000003314058900000000000000000000450450000000000000000000000000003199424500000000000000000000450437500000000000000000000000003187475200000000000000000000450425000000000000000000000000003292545700000000000000000000450412500000000000000000000000003175057800000000000000000000450400000000000000000000000000002880987300000000000000000000450387500000000000000000000000003005164700000000000000000000450375000000000000000000000000003047355000000000000000000000450362500000000000000000000000002802804100000000000000000000450350000000000000000000000000003011938900000000000000000000450337500000000000000000000000003088772000000000000000000000450325000000000000000000000000003007874800000000000000000000450312500000000000000000000000003116503400000000000000000000450300000000000000000000000000003223884000000000000000000000450287500000000000000000000000003343137200000000000000000000450275000000000000000000000000003016896100000000000000000000450262500000000000000000000000002815826400000000000000000000450250000000000000000000000000002968630900000000000000000000450237500000000000000000000000003239253100000000000000000000450225000000000000000000000000003331930000000000000000000000450212500000000000000000000000003128693700000000000000000000450200000000000000000000000000003352023700000000000000000000450187500000000000000000000000003406726700000000000000000000450175000000000000000000000000003198851600000000000000000000450162500000000000000000000000003186834100000000000000000000450150000000000000000000000000003414610600000000000000000000450137500000000000000000000000003318317600000000000000000000450125000000000000000000000000003265923300000000000000000000450112500000000000000000000000003396761800000000000000000000450100000000000000000000000000003432449300000000000000000000450087500000000000000000000000003259233200000000000000000000450075000000000000000000000000003576651500000000000000000000450062500000000000000000000000004024378400000000000000000000450050000000000000000000000000003947610000000000000000000000450037500000000000000000000000008673826400000000000000000000450025000000000000000000000000020882785000000000000000000000450012500000000000000000000000014409231000000000000000000000450000000000000000000000000000004125034600000000000000000000449987500000000000000000000000003944566400000000000000000000449975000000000000000000000000003960186800000000000000000000449962500000000000000000000000003397469000000000000000000000449950000000000000000000000000003358719300000000000000000000449937500000000000000000000000003478807200000000000000000000449925000000000000000000000000003296607900000000000000000000449912500000000000000000000000003401704200000000000000000000449900000000000000000000000000003480782600000000000000000000449887500000000000000000000000003291789600000000000000000000449875000000000000000000000000003205500500000000000000000000449862500000000000000000000000003358710900000000000000000000449850000000000000000000000000003536152100000000000000000000449837500000000000000000000000003213577300000000000000000000449825000000000000000000000000003217629800000000000000000000449812500000000000000000000000003360847700000000000000000000449800000000000000000000,
    4775941500000000000000000000451387500000000000000000000000004519709600000000000000000000451375000000000000000000000000005135919700000000000000000000451362500000000000000000000000005198124700000000000000000000451350000000000000000000000000005070211100000000000000000000451337500000000000000000000000004714635300000000000000000000451325000000000000000000000000004528857600000000000000000000451312500000000000000000000000004186695100000000000000000000451300000000000000000000000000004161541000000000000000000000451287500000000000000000000000004659412600000000000000000000451275000000000000000000000000004991509700000000000000000000451262500000000000000000000000004764799400000000000000000000451250000000000000000000000000004574236400000000000000000000451237500000000000000000000000004596111300000000000000000000451225000000000000000000000000004473925400000000000000000000451212500000000000000000000000004506996800000000000000000000451200000000000000000000000000004422620100000000000000000000451187500000000000000000000000004059000100000000000000000000451175000000000000000000000000003920030200000000000000000000451162500000000000000000000000003987461300000000000000000000451150000000000000000000000000004192901300000000000000000000451137500000000000000000000000004255191300000000000000000000451125000000000000000000000000004134810600000000000000000000451112500000000000000000000000003994620900000000000000000000451100000000000000000000000000003869253900000000000000000000451087500000000000000000000000003590862700000000000000000000451075000000000000000000000000003644723800000000000000000000451062500000000000000000000000003515372300000000000000000000451050000000000000000000000000003356864700000000000000000000451037500000000000000000000000003248749100000000000000000000451025000000000000000000000000003622214900000000000000000000451012500000000000000000000000003606085100000000000000000000451000000000000000000000000000003731126800000000000000000000450987500000000000000000000000003766226900000000000000000000450975000000000000000000000000003558042300000000000000000000450962500000000000000000000000003243451300000000000000000000450950000000000000000000000000003153885200000000000000000000450937500000000000000000000000003294568800000000000000000000450925000000000000000000000000003223272100000000000000000000450912500000000000000000000000003150751200000000000000000000450900000000000000000000000000003332312900000000000000000000450887500000000000000000000000003359231300000000000000000000450875000000000000000000000000003331367700000000000000000000450862500000000000000000000000003297471900000000000000000000450850000000000000000000000000003434198600000000000000000000450837500000000000000000000000003292440700000000000000000000450825000000000000000000000000003106918600000000000000000000450812500000000000000000000000003139494200000000000000000000450800000000000000000000000000003139638500000000000000000000450787500000000000000000000000003202501900000000000000000000450775000000000000000000000000003124635400000000000000000000450762500000000000000000000000003014675500000000000000000000450750000000000000000000000000003020280700000000000000000000450737500000000000000000000000003029513900000000000000000000450725000000000000000000000000003046189700000000000000000000450712500000000000000000000000003030110000000000000000000000450700000000000000000000000000003091379900000000000000000000450687500000000000000000000000002982212400000000000000000000450675000000000000000000000000003214760800000000000000000000450662500000000000000000000000003093174000000000000000000000450650000000000000000000000000002811143200000000000000000000450637500000000000000000000000002620069900000000000000000000450625000000000000000000000000002875670700000000000000000000450612500000000000000000000000003124334500000000000000000000450600000000000000000000,
    6443028200000000000000000000452187500000000000000000000000006513970900000000000000000000452175000000000000000000000000006234128600000000000000000000452162500000000000000000000000005974376300000000000000000000452150000000000000000000000000005955935900000000000000000000452137500000000000000000000000005628230500000000000000000000452125000000000000000000000000006244089800000000000000000000452112500000000000000000000000006357885300000000000000000000452100000000000000000000000000006574825900000000000000000000452087500000000000000000000000007056784400000000000000000000452075000000000000000000000000007100472700000000000000000000452062500000000000000000000000006666146700000000000000000000452050000000000000000000000000006465164900000000000000000000452037500000000000000000000000006216211400000000000000000000452025000000000000000000000000006344742300000000000000000000452012500000000000000000000000006285870100000000000000000000452000000000000000000000000000007066693100000000000000000000451987500000000000000000000000006845031000000000000000000000451975000000000000000000000000006337084500000000000000000000451962500000000000000000000000006430355200000000000000000000451950000000000000000000000000007390816400000000000000000000451937500000000000000000000000007603492700000000000000000000451925000000000000000000000000006423807200000000000000000000451912500000000000000000000000006110621300000000000000000000451900000000000000000000000000005920671800000000000000000000451887500000000000000000000000006437055000000000000000000000451875000000000000000000000000006313990600000000000000000000451862500000000000000000000000006749125500000000000000000000451850000000000000000000000000006698955500000000000000000000451837500000000000000000000000006691203400000000000000000000451825000000000000000000000000006449236800000000000000000000451812500000000000000000000000006270733300000000000000000000451800000000000000000000000000006260314400000000000000000000451787500000000000000000000000006373269800000000000000000000451775000000000000000000000000006348611400000000000000000000451762500000000000000000000000006304312800000000000000000000451750000000000000000000000000006147417000000000000000000000451737500000000000000000000000006006121400000000000000000000451725000000000000000000000000005379423700000000000000000000451712500000000000000000000000005535806700000000000000000000451700000000000000000000000000005791659800000000000000000000451687500000000000000000000000006085815100000000000000000000451675000000000000000000000000006671234200000000000000000000451662500000000000000000000000006648333300000000000000000000451650000000000000000000000000006209118900000000000000000000451637500000000000000000000000006541620200000000000000000000451625000000000000000000000000005903854600000000000000000000451612500000000000000000000000005778138700000000000000000000451600000000000000000000000000005926401300000000000000000000451587500000000000000000000000005476817700000000000000000000451575000000000000000000000000005854770100000000000000000000451562500000000000000000000000005662104000000000000000000000451550000000000000000000000000005333643400000000000000000000451537500000000000000000000000005556325400000000000000000000451525000000000000000000000000005342224000000000000000000000451512500000000000000000000000005551717000000000000000000000451500000000000000000000000000005691690900000000000000000000451487500000000000000000000000005329584800000000000000000000451475000000000000000000000000005656912900000000000000000000451462500000000000000000000000005527164300000000000000000000451450000000000000000000000000005594826100000000000000000000451437500000000000000000000000005669995200000000000000000000451425000000000000000000000000005984866000000000000000000000451412500000000000000000000000005675321300000000000000000000451400000000000000000000,
    5862828500000000000000000000452987500000000000000000000000005680029900000000000000000000452975000000000000000000000000005829754900000000000000000000452962500000000000000000000000005864343300000000000000000000452950000000000000000000000000005790273700000000000000000000452937500000000000000000000000005492931000000000000000000000452925000000000000000000000000005677637600000000000000000000452912500000000000000000000000005977248500000000000000000000452900000000000000000000000000006354030100000000000000000000452887500000000000000000000000005621516900000000000000000000452875000000000000000000000000005459474000000000000000000000452862500000000000000000000000005269080300000000000000000000452850000000000000000000000000005374843800000000000000000000452837500000000000000000000000005658206500000000000000000000452825000000000000000000000000005317718000000000000000000000452812500000000000000000000000005220692800000000000000000000452800000000000000000000000000005072335100000000000000000000452787500000000000000000000000005200113800000000000000000000452775000000000000000000000000005181626100000000000000000000452762500000000000000000000000005363316700000000000000000000452750000000000000000000000000005623902500000000000000000000452737500000000000000000000000006094407600000000000000000000452725000000000000000000000000005749913700000000000000000000452712500000000000000000000000005652147800000000000000000000452700000000000000000000000000005721627900000000000000000000452687500000000000000000000000005737451500000000000000000000452675000000000000000000000000006445865700000000000000000000452662500000000000000000000000006607906400000000000000000000452650000000000000000000000000006860133800000000000000000000452637500000000000000000000000006140124000000000000000000000452625000000000000000000000000006034954900000000000000000000452612500000000000000000000000006174252100000000000000000000452600000000000000000000000000005927162000000000000000000000452587500000000000000000000000006136491700000000000000000000452575000000000000000000000000006581990300000000000000000000452562500000000000000000000000006632056800000000000000000000452550000000000000000000000000005973071400000000000000000000452537500000000000000000000000006020673100000000000000000000452525000000000000000000000000006496601200000000000000000000452512500000000000000000000000006152700000000000000000000000452500000000000000000000000000005848820700000000000000000000452487500000000000000000000000005696628000000000000000000000452475000000000000000000000000005719831000000000000000000000452462500000000000000000000000005872708400000000000000000000452450000000000000000000000000006619706400000000000000000000452437500000000000000000000000006230346800000000000000000000452425000000000000000000000000006049860300000000000000000000452412500000000000000000000000006024634700000000000000000000452400000000000000000000000000006355931000000000000000000000452387500000000000000000000000006002981400000000000000000000452375000000000000000000000000006449271000000000000000000000452362500000000000000000000000006034354000000000000000000000452350000000000000000000000000006066563300000000000000000000452337500000000000000000000000006372109500000000000000000000452325000000000000000000000000006717447500000000000000000000452312500000000000000000000000006577172700000000000000000000452300000000000000000000000000006231812700000000000000000000452287500000000000000000000000005991762900000000000000000000452275000000000000000000000000006038272300000000000000000000452262500000000000000000000000006158473900000000000000000000452250000000000000000000000000006225049700000000000000000000452237500000000000000000000000005977446500000000000000000000452225000000000000000000000000006030821300000000000000000000452212500000000000000000000000006385357000000000000000000000452200000000000000000000,
    5402133200000000000000000000453787500000000000000000000000005656959600000000000000000000453775000000000000000000000000005707152000000000000000000000453762500000000000000000000000005194724600000000000000000000453750000000000000000000000000005062361900000000000000000000453737500000000000000000000000004904392300000000000000000000453725000000000000000000000000005087365500000000000000000000453712500000000000000000000000005563242900000000000000000000453700000000000000000000000000005523782400000000000000000000453687500000000000000000000000005459694600000000000000000000453675000000000000000000000000005532341700000000000000000000453662500000000000000000000000005183344000000000000000000000453650000000000000000000000000005124437200000000000000000000453637500000000000000000000000005042182100000000000000000000453625000000000000000000000000004962676900000000000000000000453612500000000000000000000000005034660800000000000000000000453600000000000000000000000000005199870400000000000000000000453587500000000000000000000000005409036900000000000000000000453575000000000000000000000000005677232200000000000000000000453562500000000000000000000000006066039500000000000000000000453550000000000000000000000000005577700000000000000000000000453537500000000000000000000000005121659500000000000000000000453525000000000000000000000000005379023400000000000000000000453512500000000000000000000000005234165400000000000000000000453500000000000000000000000000005273088300000000000000000000453487500000000000000000000000005656593600000000000000000000453475000000000000000000000000005709696400000000000000000000453462500000000000000000000000005814381900000000000000000000453450000000000000000000000000005998047800000000000000000000453437500000000000000000000000006086450000000000000000000000453425000000000000000000000000005867279800000000000000000000453412500000000000000000000000005522359000000000000000000000453400000000000000000000000000005146514600000000000000000000453387500000000000000000000000005274757700000000000000000000453375000000000000000000000000005162018100000000000000000000453362500000000000000000000000004982299000000000000000000000453350000000000000000000000000005407975800000000000000000000453337500000000000000000000000005486638300000000000000000000453325000000000000000000000000005724717400000000000000000000453312500000000000000000000000005400779300000000000000000000453300000000000000000000000000005738984100000000000000000000453287500000000000000000000000005610872800000000000000000000453275000000000000000000000000005792690600000000000000000000453262500000000000000000000000005564507900000000000000000000453250000000000000000000000000005299582100000000000000000000453237500000000000000000000000005349320100000000000000000000453225000000000000000000000000005001135200000000000000000000453212500000000000000000000000005282818300000000000000000000453200000000000000000000000000005511927800000000000000000000453187500000000000000000000000005595925200000000000000000000453175000000000000000000000000005511656500000000000000000000453162500000000000000000000000005748507400000000000000000000453150000000000000000000000000005744973800000000000000000000453137500000000000000000000000005783429900000000000000000000453125000000000000000000000000005593200500000000000000000000453112500000000000000000000000005667538000000000000000000000453100000000000000000000000000005803737900000000000000000000453087500000000000000000000000005826514200000000000000000000453075000000000000000000000000005829363200000000000000000000453062500000000000000000000000005408856000000000000000000000453050000000000000000000000000005685870900000000000000000000453037500000000000000000000000005602009200000000000000000000453025000000000000000000000000005602153000000000000000000000453012500000000000000000000000006015560700000000000000000000453000000000000000000000,
    5284426000000000000000000000454587500000000000000000000000005144645800000000000000000000454575000000000000000000000000005066385000000000000000000000454562500000000000000000000000004821501800000000000000000000454550000000000000000000000000004788544500000000000000000000454537500000000000000000000000005571025600000000000000000000454525000000000000000000000000005444535400000000000000000000454512500000000000000000000000005142960800000000000000000000454500000000000000000000000000005102251300000000000000000000454487500000000000000000000000004812418000000000000000000000454475000000000000000000000000005090545500000000000000000000454462500000000000000000000000005306103000000000000000000000454450000000000000000000000000005069686600000000000000000000454437500000000000000000000000005052636900000000000000000000454425000000000000000000000000005028906600000000000000000000454412500000000000000000000000005087657700000000000000000000454400000000000000000000000000005143539500000000000000000000454387500000000000000000000000004973382600000000000000000000454375000000000000000000000000005183605000000000000000000000454362500000000000000000000000005156665200000000000000000000454350000000000000000000000000005120683300000000000000000000454337500000000000000000000000004961241800000000000000000000454325000000000000000000000000005295796400000000000000000000454312500000000000000000000000005177313600000000000000000000454300000000000000000000000000005515650400000000000000000000454287500000000000000000000000005368618200000000000000000000454275000000000000000000000000004776142900000000000000000000454262500000000000000000000000005254739300000000000000000000454250000000000000000000000000005445410900000000000000000000454237500000000000000000000000005510096300000000000000000000454225000000000000000000000000005344878800000000000000000000454212500000000000000000000000005223986200000000000000000000454200000000000000000000000000005014360800000000000000000000454187500000000000000000000000005245943800000000000000000000454175000000000000000000000000005460929900000000000000000000454162500000000000000000000000005563492200000000000000000000454150000000000000000000000000005161271200000000000000000000454137500000000000000000000000005062187500000000000000000000454125000000000000000000000000005305966000000000000000000000454112500000000000000000000000005466914900000000000000000000454100000000000000000000000000005505353100000000000000000000454087500000000000000000000000005020022200000000000000000000454075000000000000000000000000005118487400000000000000000000454062500000000000000000000000005130080000000000000000000000454050000000000000000000000000004858458200000000000000000000454037500000000000000000000000004999446200000000000000000000454025000000000000000000000000005526270600000000000000000000454012500000000000000000000000005135823700000000000000000000454000000000000000000000000000004715449100000000000000000000453987500000000000000000000000005151555900000000000000000000453975000000000000000000000000005544296700000000000000000000453962500000000000000000000000005645798000000000000000000000453950000000000000000000000000005130440700000000000000000000453937500000000000000000000000005327564400000000000000000000453925000000000000000000000000005452115600000000000000000000453912500000000000000000000000005168304300000000000000000000453900000000000000000000000000005433440600000000000000000000453887500000000000000000000000005659889100000000000000000000453875000000000000000000000000005499542500000000000000000000453862500000000000000000000000005455083600000000000000000000453850000000000000000000000000005300545500000000000000000000453837500000000000000000000000005510711800000000000000000000453825000000000000000000000000005634361000000000000000000000453812500000000000000000000000005504873300000000000000000000453800000000000000000000,
    4972631500000000000000000000455387500000000000000000000000004964393700000000000000000000455375000000000000000000000000004579344300000000000000000000455362500000000000000000000000004929843300000000000000000000455350000000000000000000000000004763448600000000000000000000455337500000000000000000000000004442667400000000000000000000455325000000000000000000000000004511222600000000000000000000455312500000000000000000000000004728425800000000000000000000455300000000000000000000000000005063589800000000000000000000455287500000000000000000000000005294623700000000000000000000455275000000000000000000000000005000473000000000000000000000455262500000000000000000000000004958062200000000000000000000455250000000000000000000000000004313136500000000000000000000455237500000000000000000000000004603583500000000000000000000455225000000000000000000000000005168486000000000000000000000455212500000000000000000000000005255867500000000000000000000455200000000000000000000000000004956113700000000000000000000455187500000000000000000000000005225858300000000000000000000455175000000000000000000000000005111320500000000000000000000455162500000000000000000000000005124107500000000000000000000455150000000000000000000000000004968192600000000000000000000455137500000000000000000000000004694946900000000000000000000455125000000000000000000000000004867688000000000000000000000455112500000000000000000000000005112542200000000000000000000455100000000000000000000000000004872877000000000000000000000455087500000000000000000000000004931811700000000000000000000455075000000000000000000000000004945670500000000000000000000455062500000000000000000000000004821120200000000000000000000455050000000000000000000000000004641618800000000000000000000455037500000000000000000000000004616329300000000000000000000455025000000000000000000000000004607935100000000000000000000455012500000000000000000000000004809812500000000000000000000455000000000000000000000000000004736406100000000000000000000454987500000000000000000000000004845425000000000000000000000454975000000000000000000000000004926189800000000000000000000454962500000000000000000000000004897678800000000000000000000454950000000000000000000000000004759149000000000000000000000454937500000000000000000000000004769316100000000000000000000454925000000000000000000000000005094325900000000000000000000454912500000000000000000000000004939866400000000000000000000454900000000000000000000000000004597593400000000000000000000454887500000000000000000000000004989184600000000000000000000454875000000000000000000000000005149011300000000000000000000454862500000000000000000000000004935512000000000000000000000454850000000000000000000000000005131843000000000000000000000454837500000000000000000000000005066439300000000000000000000454825000000000000000000000000005225835600000000000000000000454812500000000000000000000000005106227300000000000000000000454800000000000000000000000000005126984500000000000000000000454787500000000000000000000000005392982900000000000000000000454775000000000000000000000000005043777000000000000000000000454762500000000000000000000000005147657000000000000000000000454750000000000000000000000000005208286700000000000000000000454737500000000000000000000000005420193000000000000000000000454725000000000000000000000000005220857400000000000000000000454712500000000000000000000000004715387900000000000000000000454700000000000000000000000000005072172400000000000000000000454687500000000000000000000000005524735100000000000000000000454675000000000000000000000000005234364700000000000000000000454662500000000000000000000000005185638900000000000000000000454650000000000000000000000000005139493900000000000000000000454637500000000000000000000000004662154100000000000000000000454625000000000000000000000000004796185500000000000000000000454612500000000000000000000000005323560700000000000000000000454600000000000000000000,
    4554586900000000000000000000456187500000000000000000000000004243039300000000000000000000456175000000000000000000000000004877583100000000000000000000456162500000000000000000000000004507189600000000000000000000456150000000000000000000000000004274260400000000000000000000456137500000000000000000000000004577325500000000000000000000456125000000000000000000000000004258435400000000000000000000456112500000000000000000000000004349901200000000000000000000456100000000000000000000000000004367118200000000000000000000456087500000000000000000000000004547852900000000000000000000456075000000000000000000000000004523827700000000000000000000456062500000000000000000000000004421889500000000000000000000456050000000000000000000000000004051348500000000000000000000456037500000000000000000000000006558794100000000000000000000456025000000000000000000000000016047066000000000000000000000456012500000000000000000000000011969319000000000000000000000456000000000000000000000000000004829114400000000000000000000455987500000000000000000000000004750647600000000000000000000455975000000000000000000000000004986861100000000000000000000455962500000000000000000000000004864678800000000000000000000455950000000000000000000000000005112329900000000000000000000455937500000000000000000000000005140730600000000000000000000455925000000000000000000000000004989697200000000000000000000455912500000000000000000000000004776987600000000000000000000455900000000000000000000000000004728837300000000000000000000455887500000000000000000000000005059970000000000000000000000455875000000000000000000000000004835120200000000000000000000455862500000000000000000000000004739269400000000000000000000455850000000000000000000000000004747907200000000000000000000455837500000000000000000000000004632093400000000000000000000455825000000000000000000000000004684309700000000000000000000455812500000000000000000000000004616250100000000000000000000455800000000000000000000000000004801890500000000000000000000455787500000000000000000000000005464719000000000000000000000455775000000000000000000000000005982152900000000000000000000455762500000000000000000000000005094667800000000000000000000455750000000000000000000000000004817109600000000000000000000455737500000000000000000000000004859483100000000000000000000455725000000000000000000000000004963029800000000000000000000455712500000000000000000000000004994627800000000000000000000455700000000000000000000000000005044888000000000000000000000455687500000000000000000000000005061044300000000000000000000455675000000000000000000000000004500378100000000000000000000455662500000000000000000000000004385989100000000000000000000455650000000000000000000000000004684981300000000000000000000455637500000000000000000000000004927497100000000000000000000455625000000000000000000000000004753978600000000000000000000455612500000000000000000000000004666740600000000000000000000455600000000000000000000000000004661399200000000000000000000455587500000000000000000000000004427670100000000000000000000455575000000000000000000000000004497335400000000000000000000455562500000000000000000000000004636616300000000000000000000455550000000000000000000000000004824952300000000000000000000455537500000000000000000000000004862774400000000000000000000455525000000000000000000000000005010634800000000000000000000455512500000000000000000000000005096781600000000000000000000455500000000000000000000000000005007583700000000000000000000455487500000000000000000000000004706431000000000000000000000455475000000000000000000000000004882673400000000000000000000455462500000000000000000000000004890658000000000000000000000455450000000000000000000000000004604245500000000000000000000455437500000000000000000000000004664539700000000000000000000455425000000000000000000000000005069652700000000000000000000455412500000000000000000000000005095112100000000000000000000455400000000000000000000,
    4909972400000000000000000000456987500000000000000000000000004351951900000000000000000000456975000000000000000000000000004639975500000000000000000000456962500000000000000000000000004753564600000000000000000000456950000000000000000000000000004870716200000000000000000000456937500000000000000000000000004963416700000000000000000000456925000000000000000000000000004688317300000000000000000000456912500000000000000000000000004716891900000000000000000000456900000000000000000000000000004756580900000000000000000000456887500000000000000000000000004817996000000000000000000000456875000000000000000000000000005069761700000000000000000000456862500000000000000000000000005041451500000000000000000000456850000000000000000000000000004595024500000000000000000000456837500000000000000000000000004547366600000000000000000000456825000000000000000000000000004753872400000000000000000000456812500000000000000000000000004967853400000000000000000000456800000000000000000000000000004729939100000000000000000000456787500000000000000000000000004765323400000000000000000000456775000000000000000000000000004853360500000000000000000000456762500000000000000000000000004687356400000000000000000000456750000000000000000000000000004474451400000000000000000000456737500000000000000000000000004883167900000000000000000000456725000000000000000000000000004584114300000000000000000000456712500000000000000000000000004376818600000000000000000000456700000000000000000000000000004482214100000000000000000000456687500000000000000000000000004736205000000000000000000000456675000000000000000000000000004803353900000000000000000000456662500000000000000000000000004488845500000000000000000000456650000000000000000000000000004538562400000000000000000000456637500000000000000000000000004404502000000000000000000000456625000000000000000000000000004836035700000000000000000000456612500000000000000000000000004728306600000000000000000000456600000000000000000000000000004372140100000000000000000000456587500000000000000000000000004578010500000000000000000000456575000000000000000000000000004782096900000000000000000000456562500000000000000000000000005143395000000000000000000000456550000000000000000000000000004987012000000000000000000000456537500000000000000000000000004907678200000000000000000000456525000000000000000000000000004778818000000000000000000000456512500000000000000000000000004567570700000000000000000000456500000000000000000000000000004744489000000000000000000000456487500000000000000000000000004965249300000000000000000000456475000000000000000000000000004641581900000000000000000000456462500000000000000000000000004753183500000000000000000000456450000000000000000000000000004790904800000000000000000000456437500000000000000000000000004566917400000000000000000000456425000000000000000000000000004707877300000000000000000000456412500000000000000000000000004810337400000000000000000000456400000000000000000000000000005007946000000000000000000000456387500000000000000000000000004857198200000000000000000000456375000000000000000000000000005057633500000000000000000000456362500000000000000000000000004892485100000000000000000000456350000000000000000000000000004794256700000000000000000000456337500000000000000000000000004940673500000000000000000000456325000000000000000000000000004775139400000000000000000000456312500000000000000000000000004630728700000000000000000000456300000000000000000000000000004536484300000000000000000000456287500000000000000000000000004473050600000000000000000000456275000000000000000000000000004599581600000000000000000000456262500000000000000000000000005003915700000000000000000000456250000000000000000000000000004599979300000000000000000000456237500000000000000000000000004800958100000000000000000000456225000000000000000000000000004862934300000000000000000000456212500000000000000000000000005051596000000000000000000000456200000000000000000000,
    4521248900000000000000000000457787500000000000000000000000004655789100000000000000000000457775000000000000000000000000004873164600000000000000000000457762500000000000000000000000004733067100000000000000000000457750000000000000000000000000004555491000000000000000000000457737500000000000000000000000004619729400000000000000000000457725000000000000000000000000004664965600000000000000000000457712500000000000000000000000004895043700000000000000000000457700000000000000000000000000005301643400000000000000000000457687500000000000000000000000005304645800000000000000000000457675000000000000000000000000004678634500000000000000000000457662500000000000000000000000004601986300000000000000000000457650000000000000000000000000004405241900000000000000000000457637500000000000000000000000004400376600000000000000000000457625000000000000000000000000004547692200000000000000000000457612500000000000000000000000004346052200000000000000000000457600000000000000000000000000004508452800000000000000000000457587500000000000000000000000004693694700000000000000000000457575000000000000000000000000004358979700000000000000000000457562500000000000000000000000004387123500000000000000000000457550000000000000000000000000004780042200000000000000000000457537500000000000000000000000004892792500000000000000000000457525000000000000000000000000005105414600000000000000000000457512500000000000000000000000004850253700000000000000000000457500000000000000000000000000004452882300000000000000000000457487500000000000000000000000004379638500000000000000000000457475000000000000000000000000004668865100000000000000000000457462500000000000000000000000004540064300000000000000000000457450000000000000000000000000004511961100000000000000000000457437500000000000000000000000004516035600000000000000000000457425000000000000000000000000004872438200000000000000000000457412500000000000000000000000004818955300000000000000000000457400000000000000000000000000004713727200000000000000000000457387500000000000000000000000004733110500000000000000000000457375000000000000000000000000004405135200000000000000000000457362500000000000000000000000004434990400000000000000000000457350000000000000000000000000004571658400000000000000000000457337500000000000000000000000004625554900000000000000000000457325000000000000000000000000004464965900000000000000000000457312500000000000000000000000004475123100000000000000000000457300000000000000000000000000004574525600000000000000000000457287500000000000000000000000004415664300000000000000000000457275000000000000000000000000004427215900000000000000000000457262500000000000000000000000004367919600000000000000000000457250000000000000000000000000004255793500000000000000000000457237500000000000000000000000004420284900000000000000000000457225000000000000000000000000004429991600000000000000000000457212500000000000000000000000004307364200000000000000000000457200000000000000000000000000004661828500000000000000000000457187500000000000000000000000004402661800000000000000000000457175000000000000000000000000004288206300000000000000000000457162500000000000000000000000004974487100000000000000000000457150000000000000000000000000005284653000000000000000000000457137500000000000000000000000004918300800000000000000000000457125000000000000000000000000004840505500000000000000000000457112500000000000000000000000005020208900000000000000000000457100000000000000000000000000004729343600000000000000000000457087500000000000000000000000004395702700000000000000000000457075000000000000000000000000004380601500000000000000000000457062500000000000000000000000004757588300000000000000000000457050000000000000000000000000005003785000000000000000000000457037500000000000000000000000004676713100000000000000000000457025000000000000000000000000004585521300000000000000000000457012500000000000000000000000005034266100000000000000000000457000000000000000000000,
    4441740800000000000000000000458587500000000000000000000000004398189600000000000000000000458575000000000000000000000000004468388800000000000000000000458562500000000000000000000000004817739300000000000000000000458550000000000000000000000000004577902300000000000000000000458537500000000000000000000000004656465000000000000000000000458525000000000000000000000000004439009300000000000000000000458512500000000000000000000000004121666300000000000000000000458500000000000000000000000000004270748500000000000000000000458487500000000000000000000000004339690200000000000000000000458475000000000000000000000000004366447600000000000000000000458462500000000000000000000000004097220800000000000000000000458450000000000000000000000000004046498000000000000000000000458437500000000000000000000000004444832500000000000000000000458425000000000000000000000000004510946800000000000000000000458412500000000000000000000000004588094300000000000000000000458400000000000000000000000000004518904500000000000000000000458387500000000000000000000000004013707800000000000000000000458375000000000000000000000000004181246700000000000000000000458362500000000000000000000000004233949100000000000000000000458350000000000000000000000000004302255400000000000000000000458337500000000000000000000000004727523600000000000000000000458325000000000000000000000000004951535300000000000000000000458312500000000000000000000000004755561500000000000000000000458300000000000000000000000000004792384500000000000000000000458287500000000000000000000000004557601000000000000000000000458275000000000000000000000000004741844900000000000000000000458262500000000000000000000000004969922300000000000000000000458250000000000000000000000000004450556900000000000000000000458237500000000000000000000000004685345600000000000000000000458225000000000000000000000000004574491100000000000000000000458212500000000000000000000000004663478400000000000000000000458200000000000000000000000000005011010000000000000000000000458187500000000000000000000000004867241600000000000000000000458175000000000000000000000000004576054400000000000000000000458162500000000000000000000000004777463900000000000000000000458150000000000000000000000000004699636000000000000000000000458137500000000000000000000000004550949900000000000000000000458125000000000000000000000000004351366600000000000000000000458112500000000000000000000000004885486400000000000000000000458100000000000000000000000000004930195200000000000000000000458087500000000000000000000000004714884900000000000000000000458075000000000000000000000000004720680600000000000000000000458062500000000000000000000000004286130400000000000000000000458050000000000000000000000000004089127200000000000000000000458037500000000000000000000000004487083100000000000000000000458025000000000000000000000000004649509500000000000000000000458012500000000000000000000000004812491700000000000000000000458000000000000000000000000000004718909900000000000000000000457987500000000000000000000000004283160300000000000000000000457975000000000000000000000000004358708100000000000000000000457962500000000000000000000000004378455000000000000000000000457950000000000000000000000000004560525500000000000000000000457937500000000000000000000000004032899400000000000000000000457925000000000000000000000000004287342600000000000000000000457912500000000000000000000000004519575500000000000000000000457900000000000000000000000000004550211200000000000000000000457887500000000000000000000000004967232300000000000000000000457875000000000000000000000000004760647700000000000000000000457862500000000000000000000000004597393400000000000000000000457850000000000000000000000000004707795600000000000000000000457837500000000000000000000000004690679800000000000000000000457825000000000000000000000000004769097300000000000000000000457812500000000000000000000000004503725200000000000000000000457800000000000000000000,
    4452475600000000000000000000459387500000000000000000000000004390744500000000000000000000459375000000000000000000000000004530550600000000000000000000459362500000000000000000000000004517599200000000000000000000459350000000000000000000000000004511601300000000000000000000459337500000000000000000000000005000134800000000000000000000459325000000000000000000000000005076332000000000000000000000459312500000000000000000000000004778454200000000000000000000459300000000000000000000000000004675238300000000000000000000459287500000000000000000000000004527943800000000000000000000459275000000000000000000000000004457250000000000000000000000459262500000000000000000000000004599406900000000000000000000459250000000000000000000000000004444985100000000000000000000459237500000000000000000000000004302578900000000000000000000459225000000000000000000000000004271688200000000000000000000459212500000000000000000000000004310156200000000000000000000459200000000000000000000000000004567702100000000000000000000459187500000000000000000000000004413551500000000000000000000459175000000000000000000000000004469861600000000000000000000459162500000000000000000000000004805918500000000000000000000459150000000000000000000000000004640621200000000000000000000459137500000000000000000000000004389107700000000000000000000459125000000000000000000000000004349166500000000000000000000459112500000000000000000000000004382507600000000000000000000459100000000000000000000000000004448774600000000000000000000459087500000000000000000000000004510754100000000000000000000459075000000000000000000000000004533185000000000000000000000459062500000000000000000000000004286818100000000000000000000459050000000000000000000000000004633716800000000000000000000459037500000000000000000000000004373409800000000000000000000459025000000000000000000000000004458778500000000000000000000459012500000000000000000000000004349310800000000000000000000459000000000000000000000000000004345741800000000000000000000458987500000000000000000000000004454250500000000000000000000458975000000000000000000000000004601880700000000000000000000458962500000000000000000000000004558596000000000000000000000458950000000000000000000000000004685420500000000000000000000458937500000000000000000000000004354914800000000000000000000458925000000000000000000000000004244436900000000000000000000458912500000000000000000000000004615779600000000000000000000458900000000000000000000000000004730766800000000000000000000458887500000000000000000000000004354466400000000000000000000458875000000000000000000000000004180070200000000000000000000458862500000000000000000000000004312496500000000000000000000458850000000000000000000000000004605845500000000000000000000458837500000000000000000000000004519728600000000000000000000458825000000000000000000000000004418978700000000000000000000458812500000000000000000000000004853441700000000000000000000458800000000000000000000000000004568387400000000000000000000458787500000000000000000000000004254561100000000000000000000458775000000000000000000000000004532981700000000000000000000458762500000000000000000000000004743458100000000000000000000458750000000000000000000000000004544551300000000000000000000458737500000000000000000000000004832132200000000000000000000458725000000000000000000000000004649098900000000000000000000458712500000000000000000000000004624015300000000000000000000458700000000000000000000000000004444727000000000000000000000458687500000000000000000000000004341669300000000000000000000458675000000000000000000000000004336652600000000000000000000458662500000000000000000000000004684091000000000000000000000458650000000000000000000000000005207071000000000000000000000458637500000000000000000000000004931154900000000000000000000458625000000000000000000000000004760294400000000000000000000458612500000000000000000000000004613495500000000000000000000458600000000000000000000,
    4227212900000000000000000000460187500000000000000000000000004179043300000000000000000000460175000000000000000000000000004356285500000000000000000000460162500000000000000000000000004069216100000000000000000000460150000000000000000000000000004084589800000000000000000000460137500000000000000000000000004596109100000000000000000000460125000000000000000000000000004776646400000000000000000000460112500000000000000000000000004724787600000000000000000000460100000000000000000000000000004302030500000000000000000000460087500000000000000000000000004703010500000000000000000000460075000000000000000000000000004797538300000000000000000000460062500000000000000000000000004701487400000000000000000000460050000000000000000000000000003914864900000000000000000000460037500000000000000000000000003960081900000000000000000000460025000000000000000000000000004449563300000000000000000000460012500000000000000000000000004801983300000000000000000000460000000000000000000000000000004195566000000000000000000000459987500000000000000000000000004082085500000000000000000000459975000000000000000000000000004285537800000000000000000000459962500000000000000000000000004728526800000000000000000000459950000000000000000000000000004820495300000000000000000000459937500000000000000000000000004571437200000000000000000000459925000000000000000000000000004154818800000000000000000000459912500000000000000000000000004465980900000000000000000000459900000000000000000000000000004410237200000000000000000000459887500000000000000000000000004455603200000000000000000000459875000000000000000000000000004376014700000000000000000000459862500000000000000000000000004378689500000000000000000000459850000000000000000000000000004534069000000000000000000000459837500000000000000000000000004628827900000000000000000000459825000000000000000000000000004590340400000000000000000000459812500000000000000000000000004762315700000000000000000000459800000000000000000000000000004787130800000000000000000000459787500000000000000000000000004432638300000000000000000000459775000000000000000000000000004614604700000000000000000000459762500000000000000000000000004727382700000000000000000000459750000000000000000000000000004774008500000000000000000000459737500000000000000000000000004447768800000000000000000000459725000000000000000000000000004235311300000000000000000000459712500000000000000000000000004080499500000000000000000000459700000000000000000000000000003973683100000000000000000000459687500000000000000000000000004651238700000000000000000000459675000000000000000000000000004804387700000000000000000000459662500000000000000000000000004408993800000000000000000000459650000000000000000000000000004439888200000000000000000000459637500000000000000000000000004796075000000000000000000000459625000000000000000000000000004797302200000000000000000000459612500000000000000000000000004696113900000000000000000000459600000000000000000000000000004282820900000000000000000000459587500000000000000000000000004693571700000000000000000000459575000000000000000000000000004870753300000000000000000000459562500000000000000000000000004484397200000000000000000000459550000000000000000000000000004715113600000000000000000000459537500000000000000000000000004720464700000000000000000000459525000000000000000000000000004902704900000000000000000000459512500000000000000000000000004790377200000000000000000000459500000000000000000000000000004871260400000000000000000000459487500000000000000000000000004831515800000000000000000000459475000000000000000000000000004719583100000000000000000000459462500000000000000000000000004439324300000000000000000000459450000000000000000000000000004601466900000000000000000000459437500000000000000000000000004581887500000000000000000000459425000000000000000000000000004793064800000000000000000000459412500000000000000000000000005029741600000000000000000000459400000000000000000000,
    4551143300000000000000000000460987500000000000000000000000004544315300000000000000000000460975000000000000000000000000004361322800000000000000000000460962500000000000000000000000004351176500000000000000000000460950000000000000000000000000004298188000000000000000000000460937500000000000000000000000004395959800000000000000000000460925000000000000000000000000004331362600000000000000000000460912500000000000000000000000004388948500000000000000000000460900000000000000000000000000004555627300000000000000000000460887500000000000000000000000004878251400000000000000000000460875000000000000000000000000004557784500000000000000000000460862500000000000000000000000004253074800000000000000000000460850000000000000000000000000004272327700000000000000000000460837500000000000000000000000004379167200000000000000000000460825000000000000000000000000004698690200000000000000000000460812500000000000000000000000004650087000000000000000000000460800000000000000000000000000004380424100000000000000000000460787500000000000000000000000004466935400000000000000000000460775000000000000000000000000004544571600000000000000000000460762500000000000000000000000004662371800000000000000000000460750000000000000000000000000004869352100000000000000000000460737500000000000000000000000004771272700000000000000000000460725000000000000000000000000004322976900000000000000000000460712500000000000000000000000004126273600000000000000000000460700000000000000000000000000004030676800000000000000000000460687500000000000000000000000004199530700000000000000000000460675000000000000000000000000004419912900000000000000000000460662500000000000000000000000004399075700000000000000000000460650000000000000000000000000004487859000000000000000000000460637500000000000000000000000004636623000000000000000000000460625000000000000000000000000004559525400000000000000000000460612500000000000000000000000004202076200000000000000000000460600000000000000000000000000004359879400000000000000000000460587500000000000000000000000004455934900000000000000000000460575000000000000000000000000004622914000000000000000000000460562500000000000000000000000004209975300000000000000000000460550000000000000000000000000004233361100000000000000000000460537500000000000000000000000004134827300000000000000000000460525000000000000000000000000004210952000000000000000000000460512500000000000000000000000004006101600000000000000000000460500000000000000000000000000004309450600000000000000000000460487500000000000000000000000004458746600000000000000000000460475000000000000000000000000004415372800000000000000000000460462500000000000000000000000004213657300000000000000000000460450000000000000000000000000004547440900000000000000000000460437500000000000000000000000004286040100000000000000000000460425000000000000000000000000004240513000000000000000000000460412500000000000000000000000004622381000000000000000000000460400000000000000000000000000004774008200000000000000000000460387500000000000000000000000004554665500000000000000000000460375000000000000000000000000004456356300000000000000000000460362500000000000000000000000004378015400000000000000000000460350000000000000000000000000004494903500000000000000000000460337500000000000000000000000004852877700000000000000000000460325000000000000000000000000004614301100000000000000000000460312500000000000000000000000004245600600000000000000000000460300000000000000000000000000004421144900000000000000000000460287500000000000000000000000004934956500000000000000000000460275000000000000000000000000004728726600000000000000000000460262500000000000000000000000004320546700000000000000000000460250000000000000000000000000004276887800000000000000000000460237500000000000000000000000004451071700000000000000000000460225000000000000000000000000004228023600000000000000000000460212500000000000000000000000004306822700000000000000000000460200000000000000000000,
    4481231500000000000000000000461787500000000000000000000000004269493600000000000000000000461775000000000000000000000000004643974400000000000000000000461762500000000000000000000000004761824400000000000000000000461750000000000000000000000000004282218300000000000000000000461737500000000000000000000000004317838400000000000000000000461725000000000000000000000000004359861900000000000000000000461712500000000000000000000000004337005700000000000000000000461700000000000000000000000000004221887200000000000000000000461687500000000000000000000000004431727200000000000000000000461675000000000000000000000000004812997800000000000000000000461662500000000000000000000000004371429200000000000000000000461650000000000000000000000000004011053300000000000000000000461637500000000000000000000000004214254200000000000000000000461625000000000000000000000000004592499300000000000000000000461612500000000000000000000000004489932900000000000000000000461600000000000000000000000000004181794200000000000000000000461587500000000000000000000000004567376700000000000000000000461575000000000000000000000000004524281000000000000000000000461562500000000000000000000000004385036700000000000000000000461550000000000000000000000000004451913500000000000000000000461537500000000000000000000000004845561600000000000000000000461525000000000000000000000000004741018500000000000000000000461512500000000000000000000000004314041400000000000000000000461500000000000000000000000000004446085900000000000000000000461487500000000000000000000000004486140800000000000000000000461475000000000000000000000000004417358100000000000000000000461462500000000000000000000000004667584700000000000000000000461450000000000000000000000000004398159300000000000000000000461437500000000000000000000000004325379400000000000000000000461425000000000000000000000000004308755300000000000000000000461412500000000000000000000000004244132300000000000000000000461400000000000000000000000000004184491400000000000000000000461387500000000000000000000000004230915200000000000000000000461375000000000000000000000000004784430200000000000000000000461362500000000000000000000000004767946800000000000000000000461350000000000000000000000000004429715100000000000000000000461337500000000000000000000000004374553900000000000000000000461325000000000000000000000000004389092800000000000000000000461312500000000000000000000000004264864900000000000000000000461300000000000000000000000000004349292000000000000000000000461287500000000000000000000000004221786600000000000000000000461275000000000000000000000000004475046300000000000000000000461262500000000000000000000000004538269600000000000000000000461250000000000000000000000000004257335500000000000000000000461237500000000000000000000000004395401600000000000000000000461225000000000000000000000000004177249300000000000000000000461212500000000000000000000000004516866000000000000000000000461200000000000000000000000000004143956500000000000000000000461187500000000000000000000000004071638900000000000000000000461175000000000000000000000000004652272900000000000000000000461162500000000000000000000000004172881200000000000000000000461150000000000000000000000000004106228500000000000000000000461137500000000000000000000000004483326500000000000000000000461125000000000000000000000000004463397700000000000000000000461112500000000000000000000000004130316500000000000000000000461100000000000000000000000000004310000700000000000000000000461087500000000000000000000000004539996800000000000000000000461075000000000000000000000000004342286200000000000000000000461062500000000000000000000000004379150000000000000000000000461050000000000000000000000000004563409500000000000000000000461037500000000000000000000000004527836000000000000000000000461025000000000000000000000000004337781800000000000000000000461012500000000000000000000000004201907300000000000000000000461000000000000000000000,
    4906093100000000000000000000462587500000000000000000000000004243830600000000000000000000462575000000000000000000000000004214603100000000000000000000462562500000000000000000000000004285904000000000000000000000462550000000000000000000000000004439688900000000000000000000462537500000000000000000000000004431533700000000000000000000462525000000000000000000000000004236898400000000000000000000462512500000000000000000000000004490289900000000000000000000462500000000000000000000000000004438072200000000000000000000462487500000000000000000000000004742608500000000000000000000462475000000000000000000000000004651264600000000000000000000462462500000000000000000000000004344626600000000000000000000462450000000000000000000000000004478775600000000000000000000462437500000000000000000000000004468929700000000000000000000462425000000000000000000000000003982082600000000000000000000462412500000000000000000000000003821092300000000000000000000462400000000000000000000000000004051784400000000000000000000462387500000000000000000000000004602822800000000000000000000462375000000000000000000000000004451037600000000000000000000462362500000000000000000000000004589495700000000000000000000462350000000000000000000000000004075704300000000000000000000462337500000000000000000000000003956667300000000000000000000462325000000000000000000000000004481753400000000000000000000462312500000000000000000000000004518271300000000000000000000462300000000000000000000000000004622922900000000000000000000462287500000000000000000000000004600888200000000000000000000462275000000000000000000000000004645754300000000000000000000462262500000000000000000000000004739628500000000000000000000462250000000000000000000000000004774653500000000000000000000462237500000000000000000000000004802101500000000000000000000462225000000000000000000000000004157046800000000000000000000462212500000000000000000000000004296829100000000000000000000462200000000000000000000000000004584695400000000000000000000462187500000000000000000000000004246079200000000000000000000462175000000000000000000000000004207505700000000000000000000462162500000000000000000000000004184574700000000000000000000462150000000000000000000000000004358959900000000000000000000462137500000000000000000000000004244892500000000000000000000462125000000000000000000000000004683256900000000000000000000462112500000000000000000000000004477180600000000000000000000462100000000000000000000000000004425585800000000000000000000462087500000000000000000000000004585499600000000000000000000462075000000000000000000000000004693111100000000000000000000462062500000000000000000000000004395699700000000000000000000462050000000000000000000000000004412272000000000000000000000462037500000000000000000000000004182694700000000000000000000462025000000000000000000000000004141231300000000000000000000462012500000000000000000000000004261617000000000000000000000462000000000000000000000000000004322639500000000000000000000461987500000000000000000000000004460992400000000000000000000461975000000000000000000000000004520596800000000000000000000461962500000000000000000000000004323832500000000000000000000461950000000000000000000000000004488078800000000000000000000461937500000000000000000000000004452086800000000000000000000461925000000000000000000000000004518876300000000000000000000461912500000000000000000000000004466771700000000000000000000461900000000000000000000000000004254649200000000000000000000461887500000000000000000000000004729473800000000000000000000461875000000000000000000000000004628450400000000000000000000461862500000000000000000000000004440259700000000000000000000461850000000000000000000000000004401928200000000000000000000461837500000000000000000000000004277422000000000000000000000461825000000000000000000000000004367021800000000000000000000461812500000000000000000000000004637013900000000000000000000461800000000000000000000,
    4309968900000000000000000000463387500000000000000000000000004123550100000000000000000000463375000000000000000000000000004240298400000000000000000000463362500000000000000000000000004524087300000000000000000000463350000000000000000000000000004589204200000000000000000000463337500000000000000000000000004281010400000000000000000000463325000000000000000000000000004270908000000000000000000000463312500000000000000000000000004458228900000000000000000000463300000000000000000000000000004450470900000000000000000000463287500000000000000000000000004415315800000000000000000000463275000000000000000000000000004558997300000000000000000000463262500000000000000000000000004532733000000000000000000000463250000000000000000000000000004806093700000000000000000000463237500000000000000000000000004744241500000000000000000000463225000000000000000000000000004863435000000000000000000000463212500000000000000000000000004364226900000000000000000000463200000000000000000000000000004206862300000000000000000000463187500000000000000000000000004170659400000000000000000000463175000000000000000000000000004162064100000000000000000000463162500000000000000000000000004431455900000000000000000000463150000000000000000000000000004567103700000000000000000000463137500000000000000000000000004339962400000000000000000000463125000000000000000000000000004600086600000000000000000000463112500000000000000000000000004934730800000000000000000000463100000000000000000000000000004859954300000000000000000000463087500000000000000000000000004644138700000000000000000000463075000000000000000000000000004429104700000000000000000000463062500000000000000000000000004666120500000000000000000000463050000000000000000000000000004782015800000000000000000000463037500000000000000000000000004499348100000000000000000000463025000000000000000000000000004361575400000000000000000000463012500000000000000000000000004654288600000000000000000000463000000000000000000000000000004997439500000000000000000000462987500000000000000000000000004836650500000000000000000000462975000000000000000000000000004592248400000000000000000000462962500000000000000000000000004629016700000000000000000000462950000000000000000000000000004542231600000000000000000000462937500000000000000000000000004349952100000000000000000000462925000000000000000000000000004389549600000000000000000000462912500000000000000000000000004732155600000000000000000000462900000000000000000000000000004676523200000000000000000000462887500000000000000000000000004451131300000000000000000000462875000000000000000000000000004343051400000000000000000000462862500000000000000000000000004439869500000000000000000000462850000000000000000000000000004727939100000000000000000000462837500000000000000000000000004331609600000000000000000000462825000000000000000000000000004209267600000000000000000000462812500000000000000000000000004641599500000000000000000000462800000000000000000000000000004506209200000000000000000000462787500000000000000000000000004565759400000000000000000000462775000000000000000000000000004477977400000000000000000000462762500000000000000000000000004406024600000000000000000000462750000000000000000000000000004310820800000000000000000000462737500000000000000000000000004640150700000000000000000000462725000000000000000000000000004827695900000000000000000000462712500000000000000000000000004693446200000000000000000000462700000000000000000000000000004600188200000000000000000000462687500000000000000000000000004818968000000000000000000000462675000000000000000000000000004304925400000000000000000000462662500000000000000000000000004072414700000000000000000000462650000000000000000000000000004318006900000000000000000000462637500000000000000000000000004330549500000000000000000000462625000000000000000000000000004257913700000000000000000000462612500000000000000000000000004881364300000000000000000000462600000000000000000000,
    4250522800000000000000000000464187500000000000000000000000004242144800000000000000000000464175000000000000000000000000004472244500000000000000000000464162500000000000000000000000004686980400000000000000000000464150000000000000000000000000004682370500000000000000000000464137500000000000000000000000004365991400000000000000000000464125000000000000000000000000004108028600000000000000000000464112500000000000000000000000003932031000000000000000000000464100000000000000000000000000004337770400000000000000000000464087500000000000000000000000004741841600000000000000000000464075000000000000000000000000004738321900000000000000000000464062500000000000000000000000004736782800000000000000000000464050000000000000000000000000004504326300000000000000000000464037500000000000000000000000004332358700000000000000000000464025000000000000000000000000004344024900000000000000000000464012500000000000000000000000003943009000000000000000000000464000000000000000000000000000004386155600000000000000000000463987500000000000000000000000004566559800000000000000000000463975000000000000000000000000004411394000000000000000000000463962500000000000000000000000004274294700000000000000000000463950000000000000000000000000004239117300000000000000000000463937500000000000000000000000004582136200000000000000000000463925000000000000000000000000004356408100000000000000000000463912500000000000000000000000004535576600000000000000000000463900000000000000000000000000004292546700000000000000000000463887500000000000000000000000004031452600000000000000000000463875000000000000000000000000004153185900000000000000000000463862500000000000000000000000004323644300000000000000000000463850000000000000000000000000004161016100000000000000000000463837500000000000000000000000004438117800000000000000000000463825000000000000000000000000004188510000000000000000000000463812500000000000000000000000004207554300000000000000000000463800000000000000000000000000004266374600000000000000000000463787500000000000000000000000004032386800000000000000000000463775000000000000000000000000004406998100000000000000000000463762500000000000000000000000004662580400000000000000000000463750000000000000000000000000004793766000000000000000000000463737500000000000000000000000004177586100000000000000000000463725000000000000000000000000004573336300000000000000000000463712500000000000000000000000004745536200000000000000000000463700000000000000000000000000004607055700000000000000000000463687500000000000000000000000004557265300000000000000000000463675000000000000000000000000004334407700000000000000000000463662500000000000000000000000004182975700000000000000000000463650000000000000000000000000004274673600000000000000000000463637500000000000000000000000004444303600000000000000000000463625000000000000000000000000004491861000000000000000000000463612500000000000000000000000004358025200000000000000000000463600000000000000000000000000004133637100000000000000000000463587500000000000000000000000004332971800000000000000000000463575000000000000000000000000004462954000000000000000000000463562500000000000000000000000004696179300000000000000000000463550000000000000000000000000004721958000000000000000000000463537500000000000000000000000005579196500000000000000000000463525000000000000000000000000004899232300000000000000000000463512500000000000000000000000004317802200000000000000000000463500000000000000000000000000003954502400000000000000000000463487500000000000000000000000004154330800000000000000000000463475000000000000000000000000004353471600000000000000000000463462500000000000000000000000004328871700000000000000000000463450000000000000000000000000004429148200000000000000000000463437500000000000000000000000004219395500000000000000000000463425000000000000000000000000004269117700000000000000000000463412500000000000000000000000004749045600000000000000000000463400000000000000000000,
    4175496000000000000000000000464987500000000000000000000000004311284300000000000000000000464975000000000000000000000000004345164300000000000000000000464962500000000000000000000000003816978100000000000000000000464950000000000000000000000000004285170400000000000000000000464937500000000000000000000000004196553700000000000000000000464925000000000000000000000000004279263300000000000000000000464912500000000000000000000000004396530800000000000000000000464900000000000000000000000000004309678300000000000000000000464887500000000000000000000000004541817900000000000000000000464875000000000000000000000000004268305300000000000000000000464862500000000000000000000000004308230500000000000000000000464850000000000000000000000000004202145800000000000000000000464837500000000000000000000000004301749200000000000000000000464825000000000000000000000000004398966300000000000000000000464812500000000000000000000000004422051100000000000000000000464800000000000000000000000000004756293600000000000000000000464787500000000000000000000000004765284100000000000000000000464775000000000000000000000000004248098300000000000000000000464762500000000000000000000000004603781400000000000000000000464750000000000000000000000000004668850200000000000000000000464737500000000000000000000000004545916400000000000000000000464725000000000000000000000000004375888400000000000000000000464712500000000000000000000000004722935800000000000000000000464700000000000000000000000000004649693900000000000000000000464687500000000000000000000000004416987800000000000000000000464675000000000000000000000000004641668300000000000000000000464662500000000000000000000000004601850100000000000000000000464650000000000000000000000000004474826000000000000000000000464637500000000000000000000000004302769300000000000000000000464625000000000000000000000000004317017000000000000000000000464612500000000000000000000000004261021700000000000000000000464600000000000000000000000000004209355300000000000000000000464587500000000000000000000000004007878300000000000000000000464575000000000000000000000000004265901600000000000000000000464562500000000000000000000000004256533800000000000000000000464550000000000000000000000000004430881000000000000000000000464537500000000000000000000000004472581800000000000000000000464525000000000000000000000000004247765900000000000000000000464512500000000000000000000000004376065900000000000000000000464500000000000000000000000000004231527700000000000000000000464487500000000000000000000000004304572000000000000000000000464475000000000000000000000000004622058300000000000000000000464462500000000000000000000000004553441000000000000000000000464450000000000000000000000000004063447300000000000000000000464437500000000000000000000000004203822400000000000000000000464425000000000000000000000000004324059700000000000000000000464412500000000000000000000000004232210600000000000000000000464400000000000000000000000000004393524000000000000000000000464387500000000000000000000000004317907700000000000000000000464375000000000000000000000000004194870500000000000000000000464362500000000000000000000000004142887900000000000000000000464350000000000000000000000000003788595500000000000000000000464337500000000000000000000000004007061800000000000000000000464325000000000000000000000000004466495400000000000000000000464312500000000000000000000000004473028000000000000000000000464300000000000000000000000000004537817900000000000000000000464287500000000000000000000000004547979500000000000000000000464275000000000000000000000000004664682100000000000000000000464262500000000000000000000000004548940600000000000000000000464250000000000000000000000000004380474000000000000000000000464237500000000000000000000000004540690700000000000000000000464225000000000000000000000000004701602200000000000000000000464212500000000000000000000000004340468100000000000000000000464200000000000000000000,
    4324868400000000000000000000465787500000000000000000000000004148787600000000000000000000465775000000000000000000000000004260873100000000000000000000465762500000000000000000000000004452127700000000000000000000465750000000000000000000000000004375243600000000000000000000465737500000000000000000000000004620735600000000000000000000465725000000000000000000000000004487560700000000000000000000465712500000000000000000000000004248106100000000000000000000465700000000000000000000000000004308430100000000000000000000465687500000000000000000000000004755120200000000000000000000465675000000000000000000000000004206849100000000000000000000465662500000000000000000000000003839255000000000000000000000465650000000000000000000000000004252487300000000000000000000465637500000000000000000000000004293485000000000000000000000465625000000000000000000000000004566936500000000000000000000465612500000000000000000000000004505812800000000000000000000465600000000000000000000000000004391146800000000000000000000465587500000000000000000000000004522718800000000000000000000465575000000000000000000000000004262078200000000000000000000465562500000000000000000000000004385514700000000000000000000465550000000000000000000000000004324493400000000000000000000465537500000000000000000000000004077437800000000000000000000465525000000000000000000000000004125981100000000000000000000465512500000000000000000000000004332550600000000000000000000465500000000000000000000000000004102625600000000000000000000465487500000000000000000000000004301393500000000000000000000465475000000000000000000000000004604738800000000000000000000465462500000000000000000000000004484251200000000000000000000465450000000000000000000000000004461712300000000000000000000465437500000000000000000000000004438602300000000000000000000465425000000000000000000000000004089154000000000000000000000465412500000000000000000000000004229512600000000000000000000465400000000000000000000000000004237546500000000000000000000465387500000000000000000000000004199149000000000000000000000465375000000000000000000000000004659449200000000000000000000465362500000000000000000000000004742135900000000000000000000465350000000000000000000000000004736339700000000000000000000465337500000000000000000000000004486878300000000000000000000465325000000000000000000000000004318914100000000000000000000465312500000000000000000000000004436388500000000000000000000465300000000000000000000000000004266199300000000000000000000465287500000000000000000000000004227485300000000000000000000465275000000000000000000000000003796437200000000000000000000465262500000000000000000000000004314754500000000000000000000465250000000000000000000000000004712218200000000000000000000465237500000000000000000000000004571552800000000000000000000465225000000000000000000000000004338138100000000000000000000465212500000000000000000000000004261903300000000000000000000465200000000000000000000000000004380157000000000000000000000465187500000000000000000000000004552774300000000000000000000465175000000000000000000000000004723099600000000000000000000465162500000000000000000000000004693062400000000000000000000465150000000000000000000000000004413996300000000000000000000465137500000000000000000000000004267066900000000000000000000465125000000000000000000000000004507037600000000000000000000465112500000000000000000000000004549172300000000000000000000465100000000000000000000000000004372616600000000000000000000465087500000000000000000000000004268015300000000000000000000465075000000000000000000000000004553849500000000000000000000465062500000000000000000000000004432108700000000000000000000465050000000000000000000000000004082119000000000000000000000465037500000000000000000000000003911961200000000000000000000465025000000000000000000000000004024024300000000000000000000465012500000000000000000000000004185094100000000000000000000465000000000000000000000,
    4602285800000000000000000000466587500000000000000000000000004681530900000000000000000000466575000000000000000000000000004515853900000000000000000000466562500000000000000000000000004337070000000000000000000000466550000000000000000000000000004485481200000000000000000000466537500000000000000000000000004574436600000000000000000000466525000000000000000000000000004620077000000000000000000000466512500000000000000000000000004434309900000000000000000000466500000000000000000000000000004417772900000000000000000000466487500000000000000000000000004229009900000000000000000000466475000000000000000000000000004520387100000000000000000000466462500000000000000000000000004729695000000000000000000000466450000000000000000000000000004639436200000000000000000000466437500000000000000000000000004317035600000000000000000000466425000000000000000000000000004306449200000000000000000000466412500000000000000000000000004549867900000000000000000000466400000000000000000000000000004173858300000000000000000000466387500000000000000000000000004269593600000000000000000000466375000000000000000000000000004615256100000000000000000000466362500000000000000000000000004693164900000000000000000000466350000000000000000000000000004641572200000000000000000000466337500000000000000000000000004615227200000000000000000000466325000000000000000000000000004236129200000000000000000000466312500000000000000000000000004104641100000000000000000000466300000000000000000000000000004358238600000000000000000000466287500000000000000000000000004412910100000000000000000000466275000000000000000000000000004314363400000000000000000000466262500000000000000000000000004185702800000000000000000000466250000000000000000000000000004026356500000000000000000000466237500000000000000000000000004366313400000000000000000000466225000000000000000000000000004550360800000000000000000000466212500000000000000000000000004478944900000000000000000000466200000000000000000000000000004283899900000000000000000000466187500000000000000000000000004442370500000000000000000000466175000000000000000000000000004644260100000000000000000000466162500000000000000000000000004080243700000000000000000000466150000000000000000000000000004289794800000000000000000000466137500000000000000000000000004357310600000000000000000000466125000000000000000000000000004434501200000000000000000000466112500000000000000000000000004353983300000000000000000000466100000000000000000000000000004453897700000000000000000000466087500000000000000000000000004479785600000000000000000000466075000000000000000000000000004267930800000000000000000000466062500000000000000000000000004327897000000000000000000000466050000000000000000000000000004396900500000000000000000000466037500000000000000000000000004173128300000000000000000000466025000000000000000000000000004405010800000000000000000000466012500000000000000000000000004059815000000000000000000000466000000000000000000000000000004132283900000000000000000000465987500000000000000000000000004062186000000000000000000000465975000000000000000000000000004220708500000000000000000000465962500000000000000000000000004531538700000000000000000000465950000000000000000000000000004665721900000000000000000000465937500000000000000000000000004474481400000000000000000000465925000000000000000000000000004220301800000000000000000000465912500000000000000000000000004140290700000000000000000000465900000000000000000000000000004169403700000000000000000000465887500000000000000000000000004502391800000000000000000000465875000000000000000000000000004132570800000000000000000000465862500000000000000000000000003924107400000000000000000000465850000000000000000000000000004289504500000000000000000000465837500000000000000000000000004552460700000000000000000000465825000000000000000000000000004458159300000000000000000000465812500000000000000000000000004763462600000000000000000000465800000000000000000000,
    4813360800000000000000000000467387500000000000000000000000004663889800000000000000000000467375000000000000000000000000004735805800000000000000000000467362500000000000000000000000004279613400000000000000000000467350000000000000000000000000004309556100000000000000000000467337500000000000000000000000004559656700000000000000000000467325000000000000000000000000004386981800000000000000000000467312500000000000000000000000004820244000000000000000000000467300000000000000000000000000005264434600000000000000000000467287500000000000000000000000005115211300000000000000000000467275000000000000000000000000004791930300000000000000000000467262500000000000000000000000004820163500000000000000000000467250000000000000000000000000005076572100000000000000000000467237500000000000000000000000005073811700000000000000000000467225000000000000000000000000004487149200000000000000000000467212500000000000000000000000004595271800000000000000000000467200000000000000000000000000004751985200000000000000000000467187500000000000000000000000004882862400000000000000000000467175000000000000000000000000004770709500000000000000000000467162500000000000000000000000004582658200000000000000000000467150000000000000000000000000004745497900000000000000000000467137500000000000000000000000004211353500000000000000000000467125000000000000000000000000004262724300000000000000000000467112500000000000000000000000004226064300000000000000000000467100000000000000000000000000004135586900000000000000000000467087500000000000000000000000004294091900000000000000000000467075000000000000000000000000004398521100000000000000000000467062500000000000000000000000004401600500000000000000000000467050000000000000000000000000004620195500000000000000000000467037500000000000000000000000005036415400000000000000000000467025000000000000000000000000004870732300000000000000000000467012500000000000000000000000004509096100000000000000000000467000000000000000000000000000004594088300000000000000000000466987500000000000000000000000004429106700000000000000000000466975000000000000000000000000004282704100000000000000000000466962500000000000000000000000004597965600000000000000000000466950000000000000000000000000004933431000000000000000000000466937500000000000000000000000004846560900000000000000000000466925000000000000000000000000004876091600000000000000000000466912500000000000000000000000004705561400000000000000000000466900000000000000000000000000004502216100000000000000000000466887500000000000000000000000004695458500000000000000000000466875000000000000000000000000004894645700000000000000000000466862500000000000000000000000004734819300000000000000000000466850000000000000000000000000004573582900000000000000000000466837500000000000000000000000004390447500000000000000000000466825000000000000000000000000004221322700000000000000000000466812500000000000000000000000004463569000000000000000000000466800000000000000000000000000004558185200000000000000000000466787500000000000000000000000004272462000000000000000000000466775000000000000000000000000004224087200000000000000000000466762500000000000000000000000004067093300000000000000000000466750000000000000000000000000004531361000000000000000000000466737500000000000000000000000004883860100000000000000000000466725000000000000000000000000004709040200000000000000000000466712500000000000000000000000004802856400000000000000000000466700000000000000000000000000006970317500000000000000000000466687500000000000000000000000009062745900000000000000000000466675000000000000000000000000006557598400000000000000000000466662500000000000000000000000005134548000000000000000000000466650000000000000000000000000004846722500000000000000000000466637500000000000000000000000004578509400000000000000000000466625000000000000000000000000004328121100000000000000000000466612500000000000000000000000004497958400000000000000000000466600000000000000000000,
    4342955300000000000000000000468187500000000000000000000000004614324400000000000000000000468175000000000000000000000000004913427700000000000000000000468162500000000000000000000000004801840700000000000000000000468150000000000000000000000000004220632600000000000000000000468137500000000000000000000000004271410000000000000000000000468125000000000000000000000000004517367900000000000000000000468112500000000000000000000000004445088900000000000000000000468100000000000000000000000000004320642400000000000000000000468087500000000000000000000000004600017600000000000000000000468075000000000000000000000000004568601700000000000000000000468062500000000000000000000000004908594500000000000000000000468050000000000000000000000000004905915100000000000000000000468037500000000000000000000000004646186000000000000000000000468025000000000000000000000000004451383400000000000000000000468012500000000000000000000000004248431700000000000000000000468000000000000000000000000000004513424900000000000000000000467987500000000000000000000000004649247300000000000000000000467975000000000000000000000000004265161500000000000000000000467962500000000000000000000000003999596000000000000000000000467950000000000000000000000000003806255400000000000000000000467937500000000000000000000000003867894300000000000000000000467925000000000000000000000000004233665700000000000000000000467912500000000000000000000000004035487400000000000000000000467900000000000000000000000000004579591900000000000000000000467887500000000000000000000000004570331300000000000000000000467875000000000000000000000000004500168700000000000000000000467862500000000000000000000000004375251500000000000000000000467850000000000000000000000000004001264300000000000000000000467837500000000000000000000000004226521300000000000000000000467825000000000000000000000000004439069900000000000000000000467812500000000000000000000000004754933000000000000000000000467800000000000000000000000000004726753900000000000000000000467787500000000000000000000000004754708100000000000000000000467775000000000000000000000000004562815200000000000000000000467762500000000000000000000000004393898900000000000000000000467750000000000000000000000000004395791100000000000000000000467737500000000000000000000000004287495600000000000000000000467725000000000000000000000000004424107600000000000000000000467712500000000000000000000000004684057900000000000000000000467700000000000000000000000000004646306300000000000000000000467687500000000000000000000000004671411200000000000000000000467675000000000000000000000000004733601500000000000000000000467662500000000000000000000000004649850200000000000000000000467650000000000000000000000000004402507300000000000000000000467637500000000000000000000000004582135600000000000000000000467625000000000000000000000000004791601400000000000000000000467612500000000000000000000000004968335400000000000000000000467600000000000000000000000000004620251500000000000000000000467587500000000000000000000000004628400700000000000000000000467575000000000000000000000000004782139400000000000000000000467562500000000000000000000000004597264200000000000000000000467550000000000000000000000000004683679700000000000000000000467537500000000000000000000000004519814800000000000000000000467525000000000000000000000000004395289100000000000000000000467512500000000000000000000000004335521800000000000000000000467500000000000000000000000000004466987600000000000000000000467487500000000000000000000000004835124900000000000000000000467475000000000000000000000000004531352200000000000000000000467462500000000000000000000000004103543100000000000000000000467450000000000000000000000000004506926200000000000000000000467437500000000000000000000000004644138400000000000000000000467425000000000000000000000000004300530000000000000000000000467412500000000000000000000000005022356500000000000000000000467400000000000000000000,
    4253273900000000000000000000468987500000000000000000000000003996239800000000000000000000468975000000000000000000000000004305741600000000000000000000468962500000000000000000000000004604109700000000000000000000468950000000000000000000000000004407374700000000000000000000468937500000000000000000000000004017356100000000000000000000468925000000000000000000000000003955421700000000000000000000468912500000000000000000000000004134258800000000000000000000468900000000000000000000000000004283894900000000000000000000468887500000000000000000000000004204452400000000000000000000468875000000000000000000000000003955038900000000000000000000468862500000000000000000000000004263370600000000000000000000468850000000000000000000000000004422811900000000000000000000468837500000000000000000000000004624317500000000000000000000468825000000000000000000000000004457001800000000000000000000468812500000000000000000000000004268196900000000000000000000468800000000000000000000000000004635271800000000000000000000468787500000000000000000000000004584302200000000000000000000468775000000000000000000000000004399952900000000000000000000468762500000000000000000000000004557040700000000000000000000468750000000000000000000000000004751247300000000000000000000468737500000000000000000000000004319390000000000000000000000468725000000000000000000000000003995625600000000000000000000468712500000000000000000000000004101779900000000000000000000468700000000000000000000000000004415512400000000000000000000468687500000000000000000000000004608384300000000000000000000468675000000000000000000000000004661338200000000000000000000468662500000000000000000000000004754232900000000000000000000468650000000000000000000000000004680097900000000000000000000468637500000000000000000000000004246679100000000000000000000468625000000000000000000000000004143522300000000000000000000468612500000000000000000000000004117651400000000000000000000468600000000000000000000000000004203875500000000000000000000468587500000000000000000000000004273779600000000000000000000468575000000000000000000000000004344345900000000000000000000468562500000000000000000000000004705458500000000000000000000468550000000000000000000000000004538728500000000000000000000468537500000000000000000000000004268849300000000000000000000468525000000000000000000000000003933539600000000000000000000468512500000000000000000000000004014952100000000000000000000468500000000000000000000000000004141021400000000000000000000468487500000000000000000000000004162629600000000000000000000468475000000000000000000000000004414278600000000000000000000468462500000000000000000000000004473438300000000000000000000468450000000000000000000000000004300112800000000000000000000468437500000000000000000000000004475066900000000000000000000468425000000000000000000000000004617065900000000000000000000468412500000000000000000000000004588741700000000000000000000468400000000000000000000000000004321988200000000000000000000468387500000000000000000000000004260441200000000000000000000468375000000000000000000000000004244511500000000000000000000468362500000000000000000000000004120182400000000000000000000468350000000000000000000000000004206150700000000000000000000468337500000000000000000000000004362113600000000000000000000468325000000000000000000000000004555796100000000000000000000468312500000000000000000000000004495378200000000000000000000468300000000000000000000000000004375495200000000000000000000468287500000000000000000000000004444415900000000000000000000468275000000000000000000000000004503616300000000000000000000468262500000000000000000000000004196614300000000000000000000468250000000000000000000000000004581031700000000000000000000468237500000000000000000000000004815704100000000000000000000468225000000000000000000000000004535223100000000000000000000468212500000000000000000000000004535545400000000000000000000468200000000000000000000,
    4212145800000000000000000000469787500000000000000000000000004336442000000000000000000000469775000000000000000000000000004295546500000000000000000000469762500000000000000000000000004463054100000000000000000000469750000000000000000000000000004431791400000000000000000000469737500000000000000000000000004516638800000000000000000000469725000000000000000000000000004848690800000000000000000000469712500000000000000000000000005146213900000000000000000000469700000000000000000000000000004582171900000000000000000000469687500000000000000000000000004261967800000000000000000000469675000000000000000000000000004343031100000000000000000000469662500000000000000000000000004141681400000000000000000000469650000000000000000000000000003888875100000000000000000000469637500000000000000000000000004041571300000000000000000000469625000000000000000000000000004067621600000000000000000000469612500000000000000000000000004081416900000000000000000000469600000000000000000000000000004176269500000000000000000000469587500000000000000000000000004245117300000000000000000000469575000000000000000000000000004074405200000000000000000000469562500000000000000000000000004162460100000000000000000000469550000000000000000000000000004495553800000000000000000000469537500000000000000000000000004515949100000000000000000000469525000000000000000000000000004659354600000000000000000000469512500000000000000000000000004344520100000000000000000000469500000000000000000000000000003952512100000000000000000000469487500000000000000000000000003958672900000000000000000000469475000000000000000000000000004136869400000000000000000000469462500000000000000000000000004322129100000000000000000000469450000000000000000000000000004504756000000000000000000000469437500000000000000000000000004638090300000000000000000000469425000000000000000000000000004523097900000000000000000000469412500000000000000000000000004598938900000000000000000000469400000000000000000000000000004398965100000000000000000000469387500000000000000000000000004425852100000000000000000000469375000000000000000000000000004777826300000000000000000000469362500000000000000000000000004572585100000000000000000000469350000000000000000000000000004544226500000000000000000000469337500000000000000000000000004079346500000000000000000000469325000000000000000000000000004145445900000000000000000000469312500000000000000000000000003911180800000000000000000000469300000000000000000000000000003991657000000000000000000000469287500000000000000000000000004237557800000000000000000000469275000000000000000000000000004508693200000000000000000000469262500000000000000000000000004717331100000000000000000000469250000000000000000000000000004681618200000000000000000000469237500000000000000000000000004701480700000000000000000000469225000000000000000000000000004651638000000000000000000000469212500000000000000000000000004634277000000000000000000000469200000000000000000000000000004337579100000000000000000000469187500000000000000000000000004367894000000000000000000000469175000000000000000000000000004169017000000000000000000000469162500000000000000000000000004021980700000000000000000000469150000000000000000000000000004090670900000000000000000000469137500000000000000000000000004509175200000000000000000000469125000000000000000000000000005107742600000000000000000000469112500000000000000000000000004717265900000000000000000000469100000000000000000000000000004584938200000000000000000000469087500000000000000000000000004620992100000000000000000000469075000000000000000000000000004470408300000000000000000000469062500000000000000000000000004616559500000000000000000000469050000000000000000000000000009676287200000000000000000000469037500000000000000000000000013309376000000000000000000000469025000000000000000000000000006212171600000000000000000000469012500000000000000000000000004605893400000000000000000000469000000000000000000000,
    3992378500000000000000000000470587500000000000000000000000004190864400000000000000000000470575000000000000000000000000004465978600000000000000000000470562500000000000000000000000004425877700000000000000000000470550000000000000000000000000004607280300000000000000000000470537500000000000000000000000004458255800000000000000000000470525000000000000000000000000004466479300000000000000000000470512500000000000000000000000004561124400000000000000000000470500000000000000000000000000004325506900000000000000000000470487500000000000000000000000004342112700000000000000000000470475000000000000000000000000004431742000000000000000000000470462500000000000000000000000004539514700000000000000000000470450000000000000000000000000004315322000000000000000000000470437500000000000000000000000004267013300000000000000000000470425000000000000000000000000004538208100000000000000000000470412500000000000000000000000004737545700000000000000000000470400000000000000000000000000004499962600000000000000000000470387500000000000000000000000004535754100000000000000000000470375000000000000000000000000004766933300000000000000000000470362500000000000000000000000004326137200000000000000000000470350000000000000000000000000004313197900000000000000000000470337500000000000000000000000004613627200000000000000000000470325000000000000000000000000004169877900000000000000000000470312500000000000000000000000004155890700000000000000000000470300000000000000000000000000003903319700000000000000000000470287500000000000000000000000004154327600000000000000000000470275000000000000000000000000004587661200000000000000000000470262500000000000000000000000004362702700000000000000000000470250000000000000000000000000004139326600000000000000000000470237500000000000000000000000004460609600000000000000000000470225000000000000000000000000004412758700000000000000000000470212500000000000000000000000004391036500000000000000000000470200000000000000000000000000004297252900000000000000000000470187500000000000000000000000004538653800000000000000000000470175000000000000000000000000004474521300000000000000000000470162500000000000000000000000004551878100000000000000000000470150000000000000000000000000004457237700000000000000000000470137500000000000000000000000004686614200000000000000000000470125000000000000000000000000004520017000000000000000000000470112500000000000000000000000004292529300000000000000000000470100000000000000000000000000004279605800000000000000000000470087500000000000000000000000004366452500000000000000000000470075000000000000000000000000004260259900000000000000000000470062500000000000000000000000004006689500000000000000000000470050000000000000000000000000004216866200000000000000000000470037500000000000000000000000004271610000000000000000000000470025000000000000000000000000004454113000000000000000000000470012500000000000000000000000004466987500000000000000000000470000000000000000000000000000004458857600000000000000000000469987500000000000000000000000004233120200000000000000000000469975000000000000000000000000004117343200000000000000000000469962500000000000000000000000004327410300000000000000000000469950000000000000000000000000004336480100000000000000000000469937500000000000000000000000004277968500000000000000000000469925000000000000000000000000004080302300000000000000000000469912500000000000000000000000004318708800000000000000000000469900000000000000000000000000004336631700000000000000000000469887500000000000000000000000004357459600000000000000000000469875000000000000000000000000004098864500000000000000000000469862500000000000000000000000004295196000000000000000000000469850000000000000000000000000004423878000000000000000000000469837500000000000000000000000004372280000000000000000000000469825000000000000000000000000004177808000000000000000000000469812500000000000000000000000004098211900000000000000000000469800000000000000000000,
    4184677100000000000000000000471387500000000000000000000000004251812500000000000000000000471375000000000000000000000000004142123200000000000000000000471362500000000000000000000000004394947000000000000000000000471350000000000000000000000000004347373500000000000000000000471337500000000000000000000000004838903800000000000000000000471325000000000000000000000000007829681800000000000000000000471312500000000000000000000000006794647300000000000000000000471300000000000000000000000000004674917100000000000000000000471287500000000000000000000000004167980300000000000000000000471275000000000000000000000000004385123200000000000000000000471262500000000000000000000000004514054000000000000000000000471250000000000000000000000000004325579100000000000000000000471237500000000000000000000000004319430400000000000000000000471225000000000000000000000000004340729200000000000000000000471212500000000000000000000000004123113900000000000000000000471200000000000000000000000000004421752200000000000000000000471187500000000000000000000000004533975600000000000000000000471175000000000000000000000000004298578300000000000000000000471162500000000000000000000000004541121800000000000000000000471150000000000000000000000000004652398900000000000000000000471137500000000000000000000000004533075000000000000000000000471125000000000000000000000000004468757700000000000000000000471112500000000000000000000000004645665200000000000000000000471100000000000000000000000000004494463500000000000000000000471087500000000000000000000000004265969200000000000000000000471075000000000000000000000000004297432200000000000000000000471062500000000000000000000000004330316900000000000000000000471050000000000000000000000000004389338400000000000000000000471037500000000000000000000000004646600700000000000000000000471025000000000000000000000000004976484600000000000000000000471012500000000000000000000000004571647500000000000000000000471000000000000000000000000000004109863200000000000000000000470987500000000000000000000000004113286200000000000000000000470975000000000000000000000000004213640900000000000000000000470962500000000000000000000000004330379700000000000000000000470950000000000000000000000000004424725000000000000000000000470937500000000000000000000000004650072700000000000000000000470925000000000000000000000000004558465200000000000000000000470912500000000000000000000000004351544900000000000000000000470900000000000000000000000000004336139400000000000000000000470887500000000000000000000000004566416900000000000000000000470875000000000000000000000000004811547900000000000000000000470862500000000000000000000000004465760000000000000000000000470850000000000000000000000000004149357400000000000000000000470837500000000000000000000000004222014600000000000000000000470825000000000000000000000000004178228900000000000000000000470812500000000000000000000000004210481800000000000000000000470800000000000000000000000000004554877100000000000000000000470787500000000000000000000000004714087100000000000000000000470775000000000000000000000000004367374400000000000000000000470762500000000000000000000000003984498600000000000000000000470750000000000000000000000000003946124000000000000000000000470737500000000000000000000000004064200900000000000000000000470725000000000000000000000000003880804000000000000000000000470712500000000000000000000000004336553800000000000000000000470700000000000000000000000000004337588000000000000000000000470687500000000000000000000000004131951000000000000000000000470675000000000000000000000000004737690900000000000000000000470662500000000000000000000000004647458700000000000000000000470650000000000000000000000000004239391500000000000000000000470637500000000000000000000000004416121400000000000000000000470625000000000000000000000000004370229000000000000000000000470612500000000000000000000000004174868400000000000000000000470600000000000000000000,
    4456852100000000000000000000472187500000000000000000000000004613462700000000000000000000472175000000000000000000000000004573291400000000000000000000472162500000000000000000000000004540150400000000000000000000472150000000000000000000000000004350492300000000000000000000472137500000000000000000000000004408887700000000000000000000472125000000000000000000000000004449797900000000000000000000472112500000000000000000000000004332790600000000000000000000472100000000000000000000000000004401814400000000000000000000472087500000000000000000000000004298132800000000000000000000472075000000000000000000000000004371993300000000000000000000472062500000000000000000000000004677759700000000000000000000472050000000000000000000000000004361059800000000000000000000472037500000000000000000000000004797468300000000000000000000472025000000000000000000000000004620197800000000000000000000472012500000000000000000000000004369524500000000000000000000472000000000000000000000000000004417627700000000000000000000471987500000000000000000000000004638811300000000000000000000471975000000000000000000000000004360529300000000000000000000471962500000000000000000000000004433757900000000000000000000471950000000000000000000000000004627006400000000000000000000471937500000000000000000000000004070275900000000000000000000471925000000000000000000000000004139887900000000000000000000471912500000000000000000000000004082731700000000000000000000471900000000000000000000000000004593847700000000000000000000471887500000000000000000000000005129319100000000000000000000471875000000000000000000000000004908019900000000000000000000471862500000000000000000000000004644278400000000000000000000471850000000000000000000000000004361090600000000000000000000471837500000000000000000000000004208265500000000000000000000471825000000000000000000000000004776290500000000000000000000471812500000000000000000000000004334037900000000000000000000471800000000000000000000000000004280137900000000000000000000471787500000000000000000000000004420290600000000000000000000471775000000000000000000000000004185725500000000000000000000471762500000000000000000000000004148634100000000000000000000471750000000000000000000000000004488110000000000000000000000471737500000000000000000000000004796951800000000000000000000471725000000000000000000000000004416487500000000000000000000471712500000000000000000000000003998798800000000000000000000471700000000000000000000000000004118639100000000000000000000471687500000000000000000000000004026142100000000000000000000471675000000000000000000000000004306278500000000000000000000471662500000000000000000000000004561407300000000000000000000471650000000000000000000000000004552728400000000000000000000471637500000000000000000000000004500987900000000000000000000471625000000000000000000000000004499739700000000000000000000471612500000000000000000000000004580072300000000000000000000471600000000000000000000000000004247985800000000000000000000471587500000000000000000000000004237665100000000000000000000471575000000000000000000000000004552555700000000000000000000471562500000000000000000000000004345983800000000000000000000471550000000000000000000000000004237685000000000000000000000471537500000000000000000000000004169735200000000000000000000471525000000000000000000000000004461418600000000000000000000471512500000000000000000000000004490354800000000000000000000471500000000000000000000000000004496647600000000000000000000471487500000000000000000000000004060813300000000000000000000471475000000000000000000000000003801573800000000000000000000471462500000000000000000000000004304228300000000000000000000471450000000000000000000000000004598962600000000000000000000471437500000000000000000000000004530126600000000000000000000471425000000000000000000000000004722231400000000000000000000471412500000000000000000000000004212966400000000000000000000471400000000000000000000,
    5277271800000000000000000000472987500000000000000000000000004527128800000000000000000000472975000000000000000000000000004637959500000000000000000000472962500000000000000000000000004448341600000000000000000000472950000000000000000000000000004605528500000000000000000000472937500000000000000000000000004669992900000000000000000000472925000000000000000000000000004386104800000000000000000000472912500000000000000000000000004413491000000000000000000000472900000000000000000000000000004792262900000000000000000000472887500000000000000000000000004900298800000000000000000000472875000000000000000000000000004756039400000000000000000000472862500000000000000000000000004478573300000000000000000000472850000000000000000000000000004915772300000000000000000000472837500000000000000000000000004679611000000000000000000000472825000000000000000000000000004612448600000000000000000000472812500000000000000000000000004650328800000000000000000000472800000000000000000000000000004483228200000000000000000000472787500000000000000000000000004755508000000000000000000000472775000000000000000000000000004498315200000000000000000000472762500000000000000000000000004445052900000000000000000000472750000000000000000000000000004711753800000000000000000000472737500000000000000000000000004860523200000000000000000000472725000000000000000000000000004605265800000000000000000000472712500000000000000000000000004508199200000000000000000000472700000000000000000000000000004403894900000000000000000000472687500000000000000000000000004687655800000000000000000000472675000000000000000000000000004479066300000000000000000000472662500000000000000000000000004295248500000000000000000000472650000000000000000000000000004107070800000000000000000000472637500000000000000000000000004068861300000000000000000000472625000000000000000000000000004018936900000000000000000000472612500000000000000000000000004340011700000000000000000000472600000000000000000000000000004424750800000000000000000000472587500000000000000000000000004598100100000000000000000000472575000000000000000000000000004681961700000000000000000000472562500000000000000000000000004354371300000000000000000000472550000000000000000000000000004060368200000000000000000000472537500000000000000000000000004602354700000000000000000000472525000000000000000000000000004482170100000000000000000000472512500000000000000000000000004340195700000000000000000000472500000000000000000000000000004535916400000000000000000000472487500000000000000000000000004529903400000000000000000000472475000000000000000000000000004323536300000000000000000000472462500000000000000000000000004299571200000000000000000000472450000000000000000000000000004447503900000000000000000000472437500000000000000000000000004183768200000000000000000000472425000000000000000000000000004053055000000000000000000000472412500000000000000000000000004099432100000000000000000000472400000000000000000000000000004245663800000000000000000000472387500000000000000000000000004415988800000000000000000000472375000000000000000000000000004762599500000000000000000000472362500000000000000000000000004946036600000000000000000000472350000000000000000000000000004467429100000000000000000000472337500000000000000000000000004073324700000000000000000000472325000000000000000000000000004394880600000000000000000000472312500000000000000000000000004432233100000000000000000000472300000000000000000000000000004685879700000000000000000000472287500000000000000000000000004173438000000000000000000000472275000000000000000000000000004310753700000000000000000000472262500000000000000000000000004958001800000000000000000000472250000000000000000000000000008429872800000000000000000000472237500000000000000000000000007518774100000000000000000000472225000000000000000000000000004575103100000000000000000000472212500000000000000000000000004726073000000000000000000000472200000000000000000000,
    4671253800000000000000000000473787500000000000000000000000004801719200000000000000000000473775000000000000000000000000006631542000000000000000000000473762500000000000000000000000005531862900000000000000000000473750000000000000000000000000004810598400000000000000000000473737500000000000000000000000004732971500000000000000000000473725000000000000000000000000004356679400000000000000000000473712500000000000000000000000004632949300000000000000000000473700000000000000000000000000004682965600000000000000000000473687500000000000000000000000004772307400000000000000000000473675000000000000000000000000004693215600000000000000000000473662500000000000000000000000004128227600000000000000000000473650000000000000000000000000004201951900000000000000000000473637500000000000000000000000004572693900000000000000000000473625000000000000000000000000004326676700000000000000000000473612500000000000000000000000004361931600000000000000000000473600000000000000000000000000004255675800000000000000000000473587500000000000000000000000004364361500000000000000000000473575000000000000000000000000004606188300000000000000000000473562500000000000000000000000004460279800000000000000000000473550000000000000000000000000004333439500000000000000000000473537500000000000000000000000004142377500000000000000000000473525000000000000000000000000004520043800000000000000000000473512500000000000000000000000004536905500000000000000000000473500000000000000000000000000004486642200000000000000000000473487500000000000000000000000004280839500000000000000000000473475000000000000000000000000004271127000000000000000000000473462500000000000000000000000004553482300000000000000000000473450000000000000000000000000004507811300000000000000000000473437500000000000000000000000004348615400000000000000000000473425000000000000000000000000004289620500000000000000000000473412500000000000000000000000004092144700000000000000000000473400000000000000000000000000004129350000000000000000000000473387500000000000000000000000004038954800000000000000000000473375000000000000000000000000004470081000000000000000000000473362500000000000000000000000004264080200000000000000000000473350000000000000000000000000004332186800000000000000000000473337500000000000000000000000004423904900000000000000000000473325000000000000000000000000004308040800000000000000000000473312500000000000000000000000004314876700000000000000000000473300000000000000000000000000004289015300000000000000000000473287500000000000000000000000004478485100000000000000000000473275000000000000000000000000004821150100000000000000000000473262500000000000000000000000004677471100000000000000000000473250000000000000000000000000004249312000000000000000000000473237500000000000000000000000004238134200000000000000000000473225000000000000000000000000004578506000000000000000000000473212500000000000000000000000004742749400000000000000000000473200000000000000000000000000004532404000000000000000000000473187500000000000000000000000004335858700000000000000000000473175000000000000000000000000004089125500000000000000000000473162500000000000000000000000004243820800000000000000000000473150000000000000000000000000004458881800000000000000000000473137500000000000000000000000004915664100000000000000000000473125000000000000000000000000004329405700000000000000000000473112500000000000000000000000004072945900000000000000000000473100000000000000000000000000003983914700000000000000000000473087500000000000000000000000004183455600000000000000000000473075000000000000000000000000006097971600000000000000000000473062500000000000000000000000006707203800000000000000000000473050000000000000000000000000004496741600000000000000000000473037500000000000000000000000004526689900000000000000000000473025000000000000000000000000004729310800000000000000000000473012500000000000000000000000004685381000000000000000000000473000000000000000000000,
    4880653600000000000000000000474587500000000000000000000000004683094800000000000000000000474575000000000000000000000000004414562300000000000000000000474562500000000000000000000000004417592100000000000000000000474550000000000000000000000000004506301200000000000000000000474537500000000000000000000000004623740400000000000000000000474525000000000000000000000000004415117000000000000000000000474512500000000000000000000000004585923200000000000000000000474500000000000000000000000000004687170000000000000000000000474487500000000000000000000000004867709600000000000000000000474475000000000000000000000000004584533000000000000000000000474462500000000000000000000000004603554000000000000000000000474450000000000000000000000000006308911500000000000000000000474437500000000000000000000000007256632500000000000000000000474425000000000000000000000000004897661200000000000000000000474412500000000000000000000000004569945900000000000000000000474400000000000000000000000000004489449800000000000000000000474387500000000000000000000000004947052400000000000000000000474375000000000000000000000000004757590400000000000000000000474362500000000000000000000000004524298600000000000000000000474350000000000000000000000000004187242900000000000000000000474337500000000000000000000000004215561000000000000000000000474325000000000000000000000000004396865700000000000000000000474312500000000000000000000000004381836700000000000000000000474300000000000000000000000000004234012600000000000000000000474287500000000000000000000000004230305200000000000000000000474275000000000000000000000000004319931600000000000000000000474262500000000000000000000000004499763800000000000000000000474250000000000000000000000000004211109200000000000000000000474237500000000000000000000000004383471000000000000000000000474225000000000000000000000000004634155600000000000000000000474212500000000000000000000000004809078500000000000000000000474200000000000000000000000000004499714900000000000000000000474187500000000000000000000000004259643800000000000000000000474175000000000000000000000000004412080000000000000000000000474162500000000000000000000000004102481700000000000000000000474150000000000000000000000000004469331700000000000000000000474137500000000000000000000000004397009200000000000000000000474125000000000000000000000000004069884600000000000000000000474112500000000000000000000000004088263600000000000000000000474100000000000000000000000000004496470300000000000000000000474087500000000000000000000000004719443400000000000000000000474075000000000000000000000000004550448400000000000000000000474062500000000000000000000000004316292400000000000000000000474050000000000000000000000000004200234600000000000000000000474037500000000000000000000000004224465600000000000000000000474025000000000000000000000000004120076300000000000000000000474012500000000000000000000000003990910200000000000000000000474000000000000000000000000000004175443100000000000000000000473987500000000000000000000000004103035500000000000000000000473975000000000000000000000000004040594700000000000000000000473962500000000000000000000000004185560300000000000000000000473950000000000000000000000000004500347600000000000000000000473937500000000000000000000000004443259300000000000000000000473925000000000000000000000000004382892600000000000000000000473912500000000000000000000000004279219900000000000000000000473900000000000000000000000000004848514500000000000000000000473887500000000000000000000000004456496000000000000000000000473875000000000000000000000000004255184200000000000000000000473862500000000000000000000000004736982900000000000000000000473850000000000000000000000000004525483300000000000000000000473837500000000000000000000000004184869400000000000000000000473825000000000000000000000000004438071700000000000000000000473812500000000000000000000000004464499800000000000000000000473800000000000000000000,
    4455124000000000000000000000475387500000000000000000000000004535211400000000000000000000475375000000000000000000000000004450342500000000000000000000475362500000000000000000000000004378854600000000000000000000475350000000000000000000000000004352737900000000000000000000475337500000000000000000000000004222016700000000000000000000475325000000000000000000000000004516416100000000000000000000475312500000000000000000000000004675171700000000000000000000475300000000000000000000000000004637050900000000000000000000475287500000000000000000000000004621598600000000000000000000475275000000000000000000000000004717918400000000000000000000475262500000000000000000000000004579816400000000000000000000475250000000000000000000000000004654913200000000000000000000475237500000000000000000000000004833267700000000000000000000475225000000000000000000000000004695220900000000000000000000475212500000000000000000000000004643645500000000000000000000475200000000000000000000000000004324716300000000000000000000475187500000000000000000000000004370222300000000000000000000475175000000000000000000000000004507550200000000000000000000475162500000000000000000000000004300646300000000000000000000475150000000000000000000000000004423745400000000000000000000475137500000000000000000000000004654692800000000000000000000475125000000000000000000000000004440855700000000000000000000475112500000000000000000000000004428604400000000000000000000475100000000000000000000000000004756834200000000000000000000475087500000000000000000000000004464300000000000000000000000475075000000000000000000000000004444522400000000000000000000475062500000000000000000000000004463690600000000000000000000475050000000000000000000000000004608921000000000000000000000475037500000000000000000000000004610703400000000000000000000475025000000000000000000000000004452760000000000000000000000475012500000000000000000000000004423510400000000000000000000475000000000000000000000000000004334634500000000000000000000474987500000000000000000000000004089977400000000000000000000474975000000000000000000000000004458940400000000000000000000474962500000000000000000000000004328542700000000000000000000474950000000000000000000000000004292142000000000000000000000474937500000000000000000000000004548428400000000000000000000474925000000000000000000000000004380131200000000000000000000474912500000000000000000000000004427413300000000000000000000474900000000000000000000000000004206853800000000000000000000474887500000000000000000000000004431360200000000000000000000474875000000000000000000000000004385190200000000000000000000474862500000000000000000000000004832658800000000000000000000474850000000000000000000000000004669041100000000000000000000474837500000000000000000000000004437623600000000000000000000474825000000000000000000000000004264407200000000000000000000474812500000000000000000000000004435750900000000000000000000474800000000000000000000000000004586145600000000000000000000474787500000000000000000000000004542296700000000000000000000474775000000000000000000000000004429932400000000000000000000474762500000000000000000000000004529204900000000000000000000474750000000000000000000000000004190061800000000000000000000474737500000000000000000000000004384203200000000000000000000474725000000000000000000000000004625577800000000000000000000474712500000000000000000000000004819375800000000000000000000474700000000000000000000000000004767187800000000000000000000474687500000000000000000000000003990451400000000000000000000474675000000000000000000000000004104367300000000000000000000474662500000000000000000000000004122341500000000000000000000474650000000000000000000000000004543220200000000000000000000474637500000000000000000000000004482022700000000000000000000474625000000000000000000000000004219864700000000000000000000474612500000000000000000000000004474841500000000000000000000474600000000000000000000,
    4329242500000000000000000000476187500000000000000000000000004179320700000000000000000000476175000000000000000000000000004191193700000000000000000000476162500000000000000000000000004435075600000000000000000000476150000000000000000000000000004709343900000000000000000000476137500000000000000000000000004345912300000000000000000000476125000000000000000000000000004290221300000000000000000000476112500000000000000000000000004215784700000000000000000000476100000000000000000000000000004470875900000000000000000000476087500000000000000000000000004450463900000000000000000000476075000000000000000000000000004473900000000000000000000000476062500000000000000000000000004353413000000000000000000000476050000000000000000000000000004113467000000000000000000000476037500000000000000000000000004449286800000000000000000000476025000000000000000000000000004499895000000000000000000000476012500000000000000000000000004590557500000000000000000000476000000000000000000000000000004216232500000000000000000000475987500000000000000000000000004369200500000000000000000000475975000000000000000000000000004443125400000000000000000000475962500000000000000000000000004461032100000000000000000000475950000000000000000000000000004512614800000000000000000000475937500000000000000000000000004600055200000000000000000000475925000000000000000000000000006172707200000000000000000000475912500000000000000000000000005832455900000000000000000000475900000000000000000000000000004718777900000000000000000000475887500000000000000000000000004661056000000000000000000000475875000000000000000000000000004638745700000000000000000000475862500000000000000000000000004910782100000000000000000000475850000000000000000000000000005036226900000000000000000000475837500000000000000000000000004870670600000000000000000000475825000000000000000000000000004642864200000000000000000000475812500000000000000000000000004130506400000000000000000000475800000000000000000000000000004272469600000000000000000000475787500000000000000000000000004248890500000000000000000000475775000000000000000000000000004447458700000000000000000000475762500000000000000000000000004334975000000000000000000000475750000000000000000000000000004413868800000000000000000000475737500000000000000000000000004724021400000000000000000000475725000000000000000000000000008571351900000000000000000000475712500000000000000000000000011279696000000000000000000000475700000000000000000000000000006245294100000000000000000000475687500000000000000000000000004579532100000000000000000000475675000000000000000000000000004467771000000000000000000000475662500000000000000000000000004402046600000000000000000000475650000000000000000000000000004553586600000000000000000000475637500000000000000000000000004569717400000000000000000000475625000000000000000000000000004307258400000000000000000000475612500000000000000000000000004295578700000000000000000000475600000000000000000000000000004542398900000000000000000000475587500000000000000000000000004645280800000000000000000000475575000000000000000000000000004740732000000000000000000000475562500000000000000000000000004659537900000000000000000000475550000000000000000000000000004084888200000000000000000000475537500000000000000000000000004021480800000000000000000000475525000000000000000000000000004162277900000000000000000000475512500000000000000000000000004846980500000000000000000000475500000000000000000000000000004861361100000000000000000000475487500000000000000000000000004506670600000000000000000000475475000000000000000000000000004099925100000000000000000000475462500000000000000000000000004390782200000000000000000000475450000000000000000000000000004302406900000000000000000000475437500000000000000000000000004470314500000000000000000000475425000000000000000000000000004155942000000000000000000000475412500000000000000000000000004374188300000000000000000000475400000000000000000000,
    4790457800000000000000000000476987500000000000000000000000004527196600000000000000000000476975000000000000000000000000004787589900000000000000000000476962500000000000000000000000004350278900000000000000000000476950000000000000000000000000004175062100000000000000000000476937500000000000000000000000004495655800000000000000000000476925000000000000000000000000004477591400000000000000000000476912500000000000000000000000004430125700000000000000000000476900000000000000000000000000004487124100000000000000000000476887500000000000000000000000004647223300000000000000000000476875000000000000000000000000004740449300000000000000000000476862500000000000000000000000004550169400000000000000000000476850000000000000000000000000004594167600000000000000000000476837500000000000000000000000004470522900000000000000000000476825000000000000000000000000004451874600000000000000000000476812500000000000000000000000004288741500000000000000000000476800000000000000000000000000004444050000000000000000000000476787500000000000000000000000004637059100000000000000000000476775000000000000000000000000004390477500000000000000000000476762500000000000000000000000004315288200000000000000000000476750000000000000000000000000004627855200000000000000000000476737500000000000000000000000004617690600000000000000000000476725000000000000000000000000004489420400000000000000000000476712500000000000000000000000004651388500000000000000000000476700000000000000000000000000004796698700000000000000000000476687500000000000000000000000004526797800000000000000000000476675000000000000000000000000004481423900000000000000000000476662500000000000000000000000004753907800000000000000000000476650000000000000000000000000004528061800000000000000000000476637500000000000000000000000004076066400000000000000000000476625000000000000000000000000004325384400000000000000000000476612500000000000000000000000004423942300000000000000000000476600000000000000000000000000004561633600000000000000000000476587500000000000000000000000004462154100000000000000000000476575000000000000000000000000004253034600000000000000000000476562500000000000000000000000004342457000000000000000000000476550000000000000000000000000004324775300000000000000000000476537500000000000000000000000004512477700000000000000000000476525000000000000000000000000004191766000000000000000000000476512500000000000000000000000004639517900000000000000000000476500000000000000000000000000007200513900000000000000000000476487500000000000000000000000009237884700000000000000000000476475000000000000000000000000005215070700000000000000000000476462500000000000000000000000004634575800000000000000000000476450000000000000000000000000004610258200000000000000000000476437500000000000000000000000004594392600000000000000000000476425000000000000000000000000004497354500000000000000000000476412500000000000000000000000004976264000000000000000000000476400000000000000000000000000004931223000000000000000000000476387500000000000000000000000004377563100000000000000000000476375000000000000000000000000004172245000000000000000000000476362500000000000000000000000004674938600000000000000000000476350000000000000000000000000004602825400000000000000000000476337500000000000000000000000004522274700000000000000000000476325000000000000000000000000004559494400000000000000000000476312500000000000000000000000004853678800000000000000000000476300000000000000000000000000004652586200000000000000000000476287500000000000000000000000004521360000000000000000000000476275000000000000000000000000004466334000000000000000000000476262500000000000000000000000004601276900000000000000000000476250000000000000000000000000004352602200000000000000000000476237500000000000000000000000004480177400000000000000000000476225000000000000000000000000004548489400000000000000000000476212500000000000000000000000004501099500000000000000000000476200000000000000000000,
    4449999700000000000000000000477787500000000000000000000000004514427200000000000000000000477775000000000000000000000000004298362800000000000000000000477762500000000000000000000000004447273200000000000000000000477750000000000000000000000000004414315200000000000000000000477737500000000000000000000000004444752400000000000000000000477725000000000000000000000000004470666700000000000000000000477712500000000000000000000000004444222900000000000000000000477700000000000000000000000000004661153700000000000000000000477687500000000000000000000000004832905000000000000000000000477675000000000000000000000000004830370400000000000000000000477662500000000000000000000000004270379800000000000000000000477650000000000000000000000000004520908900000000000000000000477637500000000000000000000000004641637300000000000000000000477625000000000000000000000000004378538400000000000000000000477612500000000000000000000000004525826100000000000000000000477600000000000000000000000000004545569100000000000000000000477587500000000000000000000000004441977800000000000000000000477575000000000000000000000000004322725000000000000000000000477562500000000000000000000000004322721900000000000000000000477550000000000000000000000000004582868100000000000000000000477537500000000000000000000000004398051800000000000000000000477525000000000000000000000000004406615400000000000000000000477512500000000000000000000000004845985300000000000000000000477500000000000000000000000000004592916000000000000000000000477487500000000000000000000000004688097400000000000000000000477475000000000000000000000000005203998300000000000000000000477462500000000000000000000000005551943200000000000000000000477450000000000000000000000000005018509900000000000000000000477437500000000000000000000000004303115600000000000000000000477425000000000000000000000000004719928900000000000000000000477412500000000000000000000000004462636800000000000000000000477400000000000000000000000000004579392200000000000000000000477387500000000000000000000000004761386600000000000000000000477375000000000000000000000000004705651600000000000000000000477362500000000000000000000000004677541500000000000000000000477350000000000000000000000000004712783200000000000000000000477337500000000000000000000000004527363100000000000000000000477325000000000000000000000000004318402300000000000000000000477312500000000000000000000000004384651500000000000000000000477300000000000000000000000000004510803900000000000000000000477287500000000000000000000000004391414000000000000000000000477275000000000000000000000000004669941700000000000000000000477262500000000000000000000000004944509100000000000000000000477250000000000000000000000000004721308200000000000000000000477237500000000000000000000000004277747400000000000000000000477225000000000000000000000000004920544000000000000000000000477212500000000000000000000000004917260100000000000000000000477200000000000000000000000000004421577300000000000000000000477187500000000000000000000000004506520000000000000000000000477175000000000000000000000000004482179000000000000000000000477162500000000000000000000000004573613900000000000000000000477150000000000000000000000000004296579700000000000000000000477137500000000000000000000000004129824800000000000000000000477125000000000000000000000000004197603700000000000000000000477112500000000000000000000000004382481000000000000000000000477100000000000000000000000000004178302700000000000000000000477087500000000000000000000000004162277300000000000000000000477075000000000000000000000000004198588600000000000000000000477062500000000000000000000000004468068800000000000000000000477050000000000000000000000000004631925900000000000000000000477037500000000000000000000000004637102800000000000000000000477025000000000000000000000000004892814800000000000000000000477012500000000000000000000000004939897000000000000000000000477000000000000000000000,
    4255999100000000000000000000478587500000000000000000000000004481364200000000000000000000478575000000000000000000000000004767865500000000000000000000478562500000000000000000000000004847693200000000000000000000478550000000000000000000000000004782174400000000000000000000478537500000000000000000000000004491007800000000000000000000478525000000000000000000000000004575877200000000000000000000478512500000000000000000000000004670539800000000000000000000478500000000000000000000000000004722322300000000000000000000478487500000000000000000000000004629602100000000000000000000478475000000000000000000000000004557067500000000000000000000478462500000000000000000000000004524785500000000000000000000478450000000000000000000000000004557016700000000000000000000478437500000000000000000000000004583454900000000000000000000478425000000000000000000000000004678010400000000000000000000478412500000000000000000000000004832733400000000000000000000478400000000000000000000000000004719034800000000000000000000478387500000000000000000000000004556352100000000000000000000478375000000000000000000000000005716332800000000000000000000478362500000000000000000000000005396678200000000000000000000478350000000000000000000000000004507333900000000000000000000478337500000000000000000000000004537627700000000000000000000478325000000000000000000000000004458143400000000000000000000478312500000000000000000000000004402321000000000000000000000478300000000000000000000000000004424543700000000000000000000478287500000000000000000000000004146831300000000000000000000478275000000000000000000000000004071398700000000000000000000478262500000000000000000000000004625008300000000000000000000478250000000000000000000000000004727151400000000000000000000478237500000000000000000000000004746903200000000000000000000478225000000000000000000000000004455046400000000000000000000478212500000000000000000000000004584871300000000000000000000478200000000000000000000000000004509196600000000000000000000478187500000000000000000000000004850474500000000000000000000478175000000000000000000000000004987471400000000000000000000478162500000000000000000000000004741909900000000000000000000478150000000000000000000000000004731029500000000000000000000478137500000000000000000000000004640658800000000000000000000478125000000000000000000000000004505557200000000000000000000478112500000000000000000000000004484293900000000000000000000478100000000000000000000000000004773148600000000000000000000478087500000000000000000000000004509883800000000000000000000478075000000000000000000000000004520392000000000000000000000478062500000000000000000000000004757968800000000000000000000478050000000000000000000000000004755707000000000000000000000478037500000000000000000000000004515987700000000000000000000478025000000000000000000000000004483444100000000000000000000478012500000000000000000000000004491847100000000000000000000478000000000000000000000000000004646854500000000000000000000477987500000000000000000000000004306657500000000000000000000477975000000000000000000000000004625991500000000000000000000477962500000000000000000000000004570928400000000000000000000477950000000000000000000000000004208978000000000000000000000477937500000000000000000000000004476709400000000000000000000477925000000000000000000000000004352397500000000000000000000477912500000000000000000000000004259669000000000000000000000477900000000000000000000000000004327368100000000000000000000477887500000000000000000000000004471046100000000000000000000477875000000000000000000000000004644503900000000000000000000477862500000000000000000000000008196408500000000000000000000477850000000000000000000000000010704178000000000000000000000477837500000000000000000000000005876363400000000000000000000477825000000000000000000000000004293312900000000000000000000477812500000000000000000000000004236428300000000000000000000477800000000000000000000,
    4378394000000000000000000000479387500000000000000000000000004436241100000000000000000000479375000000000000000000000000004382158200000000000000000000479362500000000000000000000000004558006300000000000000000000479350000000000000000000000000004658963500000000000000000000479337500000000000000000000000004560796900000000000000000000479325000000000000000000000000004701888300000000000000000000479312500000000000000000000000004731147900000000000000000000479300000000000000000000000000004815036300000000000000000000479287500000000000000000000000004561585600000000000000000000479275000000000000000000000000004215829700000000000000000000479262500000000000000000000000004652844400000000000000000000479250000000000000000000000000004723449100000000000000000000479237500000000000000000000000004317395800000000000000000000479225000000000000000000000000004648263000000000000000000000479212500000000000000000000000004875468200000000000000000000479200000000000000000000000000004860288200000000000000000000479187500000000000000000000000004433270000000000000000000000479175000000000000000000000000004355701600000000000000000000479162500000000000000000000000004577151500000000000000000000479150000000000000000000000000004971851500000000000000000000479137500000000000000000000000004618733600000000000000000000479125000000000000000000000000004404873500000000000000000000479112500000000000000000000000004587608000000000000000000000479100000000000000000000000000004409357200000000000000000000479087500000000000000000000000004428363200000000000000000000479075000000000000000000000000004811251400000000000000000000479062500000000000000000000000004592924400000000000000000000479050000000000000000000000000004822337800000000000000000000479037500000000000000000000000004569009200000000000000000000479025000000000000000000000000004522371600000000000000000000479012500000000000000000000000004503065000000000000000000000479000000000000000000000000000004364313000000000000000000000478987500000000000000000000000004403021000000000000000000000478975000000000000000000000000004643807600000000000000000000478962500000000000000000000000004491286100000000000000000000478950000000000000000000000000004263256300000000000000000000478937500000000000000000000000004375135500000000000000000000478925000000000000000000000000004276283900000000000000000000478912500000000000000000000000004336838700000000000000000000478900000000000000000000000000004378595700000000000000000000478887500000000000000000000000004489756100000000000000000000478875000000000000000000000000004497896500000000000000000000478862500000000000000000000000004237844100000000000000000000478850000000000000000000000000004388090700000000000000000000478837500000000000000000000000004350925000000000000000000000478825000000000000000000000000004725365800000000000000000000478812500000000000000000000000004937624000000000000000000000478800000000000000000000000000004619217400000000000000000000478787500000000000000000000000004612792100000000000000000000478775000000000000000000000000004793572500000000000000000000478762500000000000000000000000004661407500000000000000000000478750000000000000000000000000004535427000000000000000000000478737500000000000000000000000004767633800000000000000000000478725000000000000000000000000004155595500000000000000000000478712500000000000000000000000004426315800000000000000000000478700000000000000000000000000004200984700000000000000000000478687500000000000000000000000004660155200000000000000000000478675000000000000000000000000004322190200000000000000000000478662500000000000000000000000004595991800000000000000000000478650000000000000000000000000004697206500000000000000000000478637500000000000000000000000004536235000000000000000000000478625000000000000000000000000004302356300000000000000000000478612500000000000000000000000004049693700000000000000000000478600000000000000000000,
    4854749500000000000000000000480187500000000000000000000000004988585700000000000000000000480175000000000000000000000000004529385100000000000000000000480162500000000000000000000000004261093800000000000000000000480150000000000000000000000000004379354900000000000000000000480137500000000000000000000000004497095100000000000000000000480125000000000000000000000000004424390300000000000000000000480112500000000000000000000000004567583000000000000000000000480100000000000000000000000000005065963600000000000000000000480087500000000000000000000000004654432100000000000000000000480075000000000000000000000000004403727800000000000000000000480062500000000000000000000000004736918500000000000000000000480050000000000000000000000000004937215500000000000000000000480037500000000000000000000000005005718600000000000000000000480025000000000000000000000000005164945600000000000000000000480012500000000000000000000000005017000900000000000000000000480000000000000000000000000000004755489700000000000000000000479987500000000000000000000000004822184400000000000000000000479975000000000000000000000000004379869800000000000000000000479962500000000000000000000000004353067400000000000000000000479950000000000000000000000000004531801000000000000000000000479937500000000000000000000000004791233800000000000000000000479925000000000000000000000000004537604300000000000000000000479912500000000000000000000000004398637300000000000000000000479900000000000000000000000000004425845600000000000000000000479887500000000000000000000000004584895000000000000000000000479875000000000000000000000000004755516200000000000000000000479862500000000000000000000000004547530200000000000000000000479850000000000000000000000000004447893200000000000000000000479837500000000000000000000000004898150700000000000000000000479825000000000000000000000000004977711300000000000000000000479812500000000000000000000000004409614500000000000000000000479800000000000000000000000000004059997500000000000000000000479787500000000000000000000000004701713600000000000000000000479775000000000000000000000000004901036200000000000000000000479762500000000000000000000000004439954700000000000000000000479750000000000000000000000000004238509600000000000000000000479737500000000000000000000000004371254300000000000000000000479725000000000000000000000000004556144300000000000000000000479712500000000000000000000000004932063400000000000000000000479700000000000000000000000000004856371500000000000000000000479687500000000000000000000000004525668500000000000000000000479675000000000000000000000000004338516000000000000000000000479662500000000000000000000000004215353500000000000000000000479650000000000000000000000000004622167400000000000000000000479637500000000000000000000000004561003400000000000000000000479625000000000000000000000000004402425600000000000000000000479612500000000000000000000000004702355300000000000000000000479600000000000000000000000000004705984100000000000000000000479587500000000000000000000000004375886300000000000000000000479575000000000000000000000000004317480200000000000000000000479562500000000000000000000000004122462400000000000000000000479550000000000000000000000000003902391300000000000000000000479537500000000000000000000000004320729600000000000000000000479525000000000000000000000000004783133200000000000000000000479512500000000000000000000000005187697200000000000000000000479500000000000000000000000000006272957400000000000000000000479487500000000000000000000000005487967000000000000000000000479475000000000000000000000000005401145500000000000000000000479462500000000000000000000000005274306300000000000000000000479450000000000000000000000000004437887600000000000000000000479437500000000000000000000000004499785200000000000000000000479425000000000000000000000000004370799700000000000000000000479412500000000000000000000000004460583100000000000000000000479400000000000000000000,
    4473945300000000000000000000480987500000000000000000000000004849284000000000000000000000480975000000000000000000000000004574143800000000000000000000480962500000000000000000000000004409705400000000000000000000480950000000000000000000000000004579271800000000000000000000480937500000000000000000000000004737909400000000000000000000480925000000000000000000000000004249767500000000000000000000480912500000000000000000000000004383502300000000000000000000480900000000000000000000000000004274677400000000000000000000480887500000000000000000000000004548899300000000000000000000480875000000000000000000000000004570282000000000000000000000480862500000000000000000000000004864151500000000000000000000480850000000000000000000000000004947064600000000000000000000480837500000000000000000000000004746301400000000000000000000480825000000000000000000000000004475679700000000000000000000480812500000000000000000000000004631506500000000000000000000480800000000000000000000000000004478149900000000000000000000480787500000000000000000000000004568433300000000000000000000480775000000000000000000000000004334364600000000000000000000480762500000000000000000000000004615737000000000000000000000480750000000000000000000000000004560571700000000000000000000480737500000000000000000000000004431134700000000000000000000480725000000000000000000000000004786737000000000000000000000480712500000000000000000000000005045341600000000000000000000480700000000000000000000000000006113051400000000000000000000480687500000000000000000000000005000634200000000000000000000480675000000000000000000000000004714182000000000000000000000480662500000000000000000000000004684745100000000000000000000480650000000000000000000000000004631509000000000000000000000480637500000000000000000000000004586378200000000000000000000480625000000000000000000000000004582586100000000000000000000480612500000000000000000000000004462975400000000000000000000480600000000000000000000000000004532761800000000000000000000480587500000000000000000000000004940502500000000000000000000480575000000000000000000000000004746982600000000000000000000480562500000000000000000000000004432833500000000000000000000480550000000000000000000000000004357114700000000000000000000480537500000000000000000000000004609129400000000000000000000480525000000000000000000000000004523495700000000000000000000480512500000000000000000000000004403853200000000000000000000480500000000000000000000000000004401196000000000000000000000480487500000000000000000000000004714348400000000000000000000480475000000000000000000000000004566504500000000000000000000480462500000000000000000000000004545322100000000000000000000480450000000000000000000000000004361283000000000000000000000480437500000000000000000000000004840011400000000000000000000480425000000000000000000000000004605736700000000000000000000480412500000000000000000000000004601269700000000000000000000480400000000000000000000000000004755936100000000000000000000480387500000000000000000000000004409438000000000000000000000480375000000000000000000000000004566674000000000000000000000480362500000000000000000000000004613593000000000000000000000480350000000000000000000000000004665922000000000000000000000480337500000000000000000000000004402911200000000000000000000480325000000000000000000000000004267611700000000000000000000480312500000000000000000000000004298641500000000000000000000480300000000000000000000000000004534983500000000000000000000480287500000000000000000000000004772284100000000000000000000480275000000000000000000000000005147886800000000000000000000480262500000000000000000000000004406839000000000000000000000480250000000000000000000000000004801989600000000000000000000480237500000000000000000000000004662092600000000000000000000480225000000000000000000000000004442809200000000000000000000480212500000000000000000000000004602490000000000000000000000480200000000000000000000,
    4591714900000000000000000000481787500000000000000000000000004281619800000000000000000000481775000000000000000000000000004387660400000000000000000000481762500000000000000000000000004542941800000000000000000000481750000000000000000000000000004215180100000000000000000000481737500000000000000000000000004196554100000000000000000000481725000000000000000000000000004703754800000000000000000000481712500000000000000000000000004692265500000000000000000000481700000000000000000000000000004370894100000000000000000000481687500000000000000000000000004461171200000000000000000000481675000000000000000000000000004756499900000000000000000000481662500000000000000000000000004976085200000000000000000000481650000000000000000000000000004837019200000000000000000000481637500000000000000000000000004654523900000000000000000000481625000000000000000000000000004631632700000000000000000000481612500000000000000000000000004676499500000000000000000000481600000000000000000000000000004717982800000000000000000000481587500000000000000000000000004656833700000000000000000000481575000000000000000000000000005007186700000000000000000000481562500000000000000000000000005097218900000000000000000000481550000000000000000000000000004909075600000000000000000000481537500000000000000000000000004445059800000000000000000000481525000000000000000000000000004434717400000000000000000000481512500000000000000000000000004731943500000000000000000000481500000000000000000000000000004873330300000000000000000000481487500000000000000000000000004734851100000000000000000000481475000000000000000000000000004716843800000000000000000000481462500000000000000000000000004433200900000000000000000000481450000000000000000000000000004330396100000000000000000000481437500000000000000000000000004692562300000000000000000000481425000000000000000000000000004934712200000000000000000000481412500000000000000000000000004432009500000000000000000000481400000000000000000000000000004220326600000000000000000000481387500000000000000000000000004559247400000000000000000000481375000000000000000000000000007680479900000000000000000000481362500000000000000000000000006860328400000000000000000000481350000000000000000000000000004327437100000000000000000000481337500000000000000000000000004460928000000000000000000000481325000000000000000000000000004221201900000000000000000000481312500000000000000000000000003968332400000000000000000000481300000000000000000000000000004270875700000000000000000000481287500000000000000000000000004416032600000000000000000000481275000000000000000000000000004428137200000000000000000000481262500000000000000000000000004555913300000000000000000000481250000000000000000000000000004586458300000000000000000000481237500000000000000000000000004687789900000000000000000000481225000000000000000000000000004455880000000000000000000000481212500000000000000000000000004380395500000000000000000000481200000000000000000000000000004334140300000000000000000000481187500000000000000000000000004917200100000000000000000000481175000000000000000000000000004970001200000000000000000000481162500000000000000000000000004873389500000000000000000000481150000000000000000000000000004998244200000000000000000000481137500000000000000000000000004582892500000000000000000000481125000000000000000000000000004441348900000000000000000000481112500000000000000000000000004793736700000000000000000000481100000000000000000000000000004582416800000000000000000000481087500000000000000000000000004561018500000000000000000000481075000000000000000000000000004656106600000000000000000000481062500000000000000000000000004456340400000000000000000000481050000000000000000000000000004727215200000000000000000000481037500000000000000000000000004592209900000000000000000000481025000000000000000000000000004501915900000000000000000000481012500000000000000000000000004455173300000000000000000000481000000000000000000000,
    4553818600000000000000000000482587500000000000000000000000004841528500000000000000000000482575000000000000000000000000005171859600000000000000000000482562500000000000000000000000005052065800000000000000000000482550000000000000000000000000005128568600000000000000000000482537500000000000000000000000004790096800000000000000000000482525000000000000000000000000004810372500000000000000000000482512500000000000000000000000005214937500000000000000000000482500000000000000000000000000004976587000000000000000000000482487500000000000000000000000004598707600000000000000000000482475000000000000000000000000004681663300000000000000000000482462500000000000000000000000004876812700000000000000000000482450000000000000000000000000004694284000000000000000000000482437500000000000000000000000004507648800000000000000000000482425000000000000000000000000004836952300000000000000000000482412500000000000000000000000004541745200000000000000000000482400000000000000000000000000004249233300000000000000000000482387500000000000000000000000004070523100000000000000000000482375000000000000000000000000004327184200000000000000000000482362500000000000000000000000004499571600000000000000000000482350000000000000000000000000004723197700000000000000000000482337500000000000000000000000005168827000000000000000000000482325000000000000000000000000004628697600000000000000000000482312500000000000000000000000004159311900000000000000000000482300000000000000000000000000004546312500000000000000000000482287500000000000000000000000004516332100000000000000000000482275000000000000000000000000004482163200000000000000000000482262500000000000000000000000004747723400000000000000000000482250000000000000000000000000004560373700000000000000000000482237500000000000000000000000004590480900000000000000000000482225000000000000000000000000004690824800000000000000000000482212500000000000000000000000004811522200000000000000000000482200000000000000000000000000004642069600000000000000000000482187500000000000000000000000004573851700000000000000000000482175000000000000000000000000004444994000000000000000000000482162500000000000000000000000004324967700000000000000000000482150000000000000000000000000004227579800000000000000000000482137500000000000000000000000004604418200000000000000000000482125000000000000000000000000004525659600000000000000000000482112500000000000000000000000004245889200000000000000000000482100000000000000000000000000004413967900000000000000000000482087500000000000000000000000004499500100000000000000000000482075000000000000000000000000004295172600000000000000000000482062500000000000000000000000004804809800000000000000000000482050000000000000000000000000004673435000000000000000000000482037500000000000000000000000004390369500000000000000000000482025000000000000000000000000004056379600000000000000000000482012500000000000000000000000004529629000000000000000000000482000000000000000000000000000005180415300000000000000000000481987500000000000000000000000005112644700000000000000000000481975000000000000000000000000004564394500000000000000000000481962500000000000000000000000004548006900000000000000000000481950000000000000000000000000004735611300000000000000000000481937500000000000000000000000004733832300000000000000000000481925000000000000000000000000004417306800000000000000000000481912500000000000000000000000004497141100000000000000000000481900000000000000000000000000004463008700000000000000000000481887500000000000000000000000004605389500000000000000000000481875000000000000000000000000004509247700000000000000000000481862500000000000000000000000004032884100000000000000000000481850000000000000000000000000004441991900000000000000000000481837500000000000000000000000004479574100000000000000000000481825000000000000000000000000004403492200000000000000000000481812500000000000000000000000004489665800000000000000000000481800000000000000000000,
    4615768300000000000000000000483387500000000000000000000000004673700600000000000000000000483375000000000000000000000000004701768700000000000000000000483362500000000000000000000000004646123400000000000000000000483350000000000000000000000000004357393400000000000000000000483337500000000000000000000000004436209900000000000000000000483325000000000000000000000000005182964300000000000000000000483312500000000000000000000000005076648800000000000000000000483300000000000000000000000000004492054500000000000000000000483287500000000000000000000000004565326400000000000000000000483275000000000000000000000000004487491200000000000000000000483262500000000000000000000000004401974800000000000000000000483250000000000000000000000000004551046500000000000000000000483237500000000000000000000000004858139900000000000000000000483225000000000000000000000000004749573100000000000000000000483212500000000000000000000000004394435800000000000000000000483200000000000000000000000000004917620300000000000000000000483187500000000000000000000000005215627200000000000000000000483175000000000000000000000000004920799600000000000000000000483162500000000000000000000000004835432800000000000000000000483150000000000000000000000000004998527200000000000000000000483137500000000000000000000000004951750300000000000000000000483125000000000000000000000000004987862600000000000000000000483112500000000000000000000000004775273500000000000000000000483100000000000000000000000000004685780800000000000000000000483087500000000000000000000000004423783300000000000000000000483075000000000000000000000000004408180200000000000000000000483062500000000000000000000000004417614200000000000000000000483050000000000000000000000000004781691000000000000000000000483037500000000000000000000000004892428500000000000000000000483025000000000000000000000000004682652800000000000000000000483012500000000000000000000000004678569000000000000000000000483000000000000000000000000000004775079600000000000000000000482987500000000000000000000000004817532200000000000000000000482975000000000000000000000000004599820300000000000000000000482962500000000000000000000000004922407800000000000000000000482950000000000000000000000000006802268500000000000000000000482937500000000000000000000000005716800900000000000000000000482925000000000000000000000000005082717000000000000000000000482912500000000000000000000000004990428500000000000000000000482900000000000000000000000000004713003200000000000000000000482887500000000000000000000000004728851900000000000000000000482875000000000000000000000000004635796600000000000000000000482862500000000000000000000000004637124500000000000000000000482850000000000000000000000000004892209900000000000000000000482837500000000000000000000000004717512700000000000000000000482825000000000000000000000000004653922300000000000000000000482812500000000000000000000000004696306300000000000000000000482800000000000000000000000000004962667900000000000000000000482787500000000000000000000000004913785600000000000000000000482775000000000000000000000000005105590000000000000000000000482762500000000000000000000000004781831400000000000000000000482750000000000000000000000000004463172500000000000000000000482737500000000000000000000000004376565100000000000000000000482725000000000000000000000000004626676400000000000000000000482712500000000000000000000000006844541700000000000000000000482700000000000000000000000000007580263600000000000000000000482687500000000000000000000000004919058800000000000000000000482675000000000000000000000000004661890900000000000000000000482662500000000000000000000000004598370800000000000000000000482650000000000000000000000000004225035200000000000000000000482637500000000000000000000000004199937300000000000000000000482625000000000000000000000000004585109200000000000000000000482612500000000000000000000000004868020000000000000000000000482600000000000000000000,
    4548993500000000000000000000484187500000000000000000000000004775258200000000000000000000484175000000000000000000000000004957355300000000000000000000484162500000000000000000000000005100969300000000000000000000484150000000000000000000000000004841282800000000000000000000484137500000000000000000000000004797162700000000000000000000484125000000000000000000000000004823094700000000000000000000484112500000000000000000000000004746361600000000000000000000484100000000000000000000000000004645373400000000000000000000484087500000000000000000000000004342583100000000000000000000484075000000000000000000000000004525617400000000000000000000484062500000000000000000000000004498008800000000000000000000484050000000000000000000000000004955239800000000000000000000484037500000000000000000000000004630752700000000000000000000484025000000000000000000000000004396785900000000000000000000484012500000000000000000000000004630008900000000000000000000484000000000000000000000000000004306913700000000000000000000483987500000000000000000000000003956540400000000000000000000483975000000000000000000000000004601743200000000000000000000483962500000000000000000000000004653334900000000000000000000483950000000000000000000000000004854802400000000000000000000483937500000000000000000000000005015589400000000000000000000483925000000000000000000000000005095039800000000000000000000483912500000000000000000000000004950195700000000000000000000483900000000000000000000000000004832356800000000000000000000483887500000000000000000000000004998695400000000000000000000483875000000000000000000000000004680651400000000000000000000483862500000000000000000000000004435757700000000000000000000483850000000000000000000000000004715843800000000000000000000483837500000000000000000000000004628684700000000000000000000483825000000000000000000000000004670329700000000000000000000483812500000000000000000000000004819079700000000000000000000483800000000000000000000000000005019302000000000000000000000483787500000000000000000000000004917095100000000000000000000483775000000000000000000000000004708785200000000000000000000483762500000000000000000000000004259179000000000000000000000483750000000000000000000000000004606419100000000000000000000483737500000000000000000000000004704533500000000000000000000483725000000000000000000000000004699596800000000000000000000483712500000000000000000000000004466918800000000000000000000483700000000000000000000000000004144021600000000000000000000483687500000000000000000000000004476243500000000000000000000483675000000000000000000000000004811648400000000000000000000483662500000000000000000000000004991328100000000000000000000483650000000000000000000000000004585455800000000000000000000483637500000000000000000000000004393283700000000000000000000483625000000000000000000000000004566168000000000000000000000483612500000000000000000000000004126131900000000000000000000483600000000000000000000000000004652298300000000000000000000483587500000000000000000000000006354963400000000000000000000483575000000000000000000000000005769340100000000000000000000483562500000000000000000000000004506649500000000000000000000483550000000000000000000000000004429525400000000000000000000483537500000000000000000000000004320501100000000000000000000483525000000000000000000000000004214757000000000000000000000483512500000000000000000000000004541514400000000000000000000483500000000000000000000000000004786603500000000000000000000483487500000000000000000000000004897801300000000000000000000483475000000000000000000000000004749136500000000000000000000483462500000000000000000000000004610672200000000000000000000483450000000000000000000000000004603206200000000000000000000483437500000000000000000000000004564343500000000000000000000483425000000000000000000000000004819312000000000000000000000483412500000000000000000000000004683995400000000000000000000483400000000000000000000,
    4894928200000000000000000000484987500000000000000000000000004706558800000000000000000000484975000000000000000000000000004939065500000000000000000000484962500000000000000000000000005044771300000000000000000000484950000000000000000000000000004461177600000000000000000000484937500000000000000000000000004317463000000000000000000000484925000000000000000000000000004360812700000000000000000000484912500000000000000000000000004972507200000000000000000000484900000000000000000000000000004911543300000000000000000000484887500000000000000000000000004891793500000000000000000000484875000000000000000000000000004840562600000000000000000000484862500000000000000000000000004962433400000000000000000000484850000000000000000000000000004882291500000000000000000000484837500000000000000000000000004665914300000000000000000000484825000000000000000000000000004418749400000000000000000000484812500000000000000000000000004246130000000000000000000000484800000000000000000000000000004496184800000000000000000000484787500000000000000000000000004589928600000000000000000000484775000000000000000000000000004867863100000000000000000000484762500000000000000000000000004568363500000000000000000000484750000000000000000000000000004641236800000000000000000000484737500000000000000000000000004801582500000000000000000000484725000000000000000000000000004911293200000000000000000000484712500000000000000000000000004927881100000000000000000000484700000000000000000000000000004586648800000000000000000000484687500000000000000000000000004498750000000000000000000000484675000000000000000000000000004714855700000000000000000000484662500000000000000000000000004764441800000000000000000000484650000000000000000000000000004544627700000000000000000000484637500000000000000000000000004598203900000000000000000000484625000000000000000000000000004837238800000000000000000000484612500000000000000000000000004736230300000000000000000000484600000000000000000000000000004867440100000000000000000000484587500000000000000000000000005173043400000000000000000000484575000000000000000000000000004862531700000000000000000000484562500000000000000000000000004739851800000000000000000000484550000000000000000000000000004782125500000000000000000000484537500000000000000000000000004729272900000000000000000000484525000000000000000000000000004626925900000000000000000000484512500000000000000000000000004312805600000000000000000000484500000000000000000000000000004352291800000000000000000000484487500000000000000000000000004463733500000000000000000000484475000000000000000000000000004653809800000000000000000000484462500000000000000000000000004667142300000000000000000000484450000000000000000000000000004857261800000000000000000000484437500000000000000000000000004492485300000000000000000000484425000000000000000000000000004723004200000000000000000000484412500000000000000000000000004758542600000000000000000000484400000000000000000000000000005006782900000000000000000000484387500000000000000000000000004807620600000000000000000000484375000000000000000000000000004650296400000000000000000000484362500000000000000000000000004339795800000000000000000000484350000000000000000000000000004400043500000000000000000000484337500000000000000000000000004612130400000000000000000000484325000000000000000000000000004511286600000000000000000000484312500000000000000000000000004747717100000000000000000000484300000000000000000000000000004718654500000000000000000000484287500000000000000000000000004527605300000000000000000000484275000000000000000000000000004499928400000000000000000000484262500000000000000000000000004598504100000000000000000000484250000000000000000000000000004377794400000000000000000000484237500000000000000000000000004349725100000000000000000000484225000000000000000000000000004422135800000000000000000000484212500000000000000000000000004220459900000000000000000000484200000000000000000000,
    4852535300000000000000000000485787500000000000000000000000004557742000000000000000000000485775000000000000000000000000004500640600000000000000000000485762500000000000000000000000004783194100000000000000000000485750000000000000000000000000004969374800000000000000000000485737500000000000000000000000004555965500000000000000000000485725000000000000000000000000004511261400000000000000000000485712500000000000000000000000004589011800000000000000000000485700000000000000000000000000004447822200000000000000000000485687500000000000000000000000004340390000000000000000000000485675000000000000000000000000004629569400000000000000000000485662500000000000000000000000004784334900000000000000000000485650000000000000000000000000004295622600000000000000000000485637500000000000000000000000004510910100000000000000000000485625000000000000000000000000004739544000000000000000000000485612500000000000000000000000004481709700000000000000000000485600000000000000000000000000004722134300000000000000000000485587500000000000000000000000004971838400000000000000000000485575000000000000000000000000004771467700000000000000000000485562500000000000000000000000004744301200000000000000000000485550000000000000000000000000004906347400000000000000000000485537500000000000000000000000004975940700000000000000000000485525000000000000000000000000004657986300000000000000000000485512500000000000000000000000004684045300000000000000000000485500000000000000000000000000004613879700000000000000000000485487500000000000000000000000004604255500000000000000000000485475000000000000000000000000004540692200000000000000000000485462500000000000000000000000004379574100000000000000000000485450000000000000000000000000004653647400000000000000000000485437500000000000000000000000004267951200000000000000000000485425000000000000000000000000004511480500000000000000000000485412500000000000000000000000004805438400000000000000000000485400000000000000000000000000004270749000000000000000000000485387500000000000000000000000003942175700000000000000000000485375000000000000000000000000004060577100000000000000000000485362500000000000000000000000004125628600000000000000000000485350000000000000000000000000004592625800000000000000000000485337500000000000000000000000004869813500000000000000000000485325000000000000000000000000004759707500000000000000000000485312500000000000000000000000004599087100000000000000000000485300000000000000000000000000004612843600000000000000000000485287500000000000000000000000004420333000000000000000000000485275000000000000000000000000004826226800000000000000000000485262500000000000000000000000004792765300000000000000000000485250000000000000000000000000004851676100000000000000000000485237500000000000000000000000004697965000000000000000000000485225000000000000000000000000004958921300000000000000000000485212500000000000000000000000005181587300000000000000000000485200000000000000000000000000005104936200000000000000000000485187500000000000000000000000004467062100000000000000000000485175000000000000000000000000004710240800000000000000000000485162500000000000000000000000004707924600000000000000000000485150000000000000000000000000004687739800000000000000000000485137500000000000000000000000004647588200000000000000000000485125000000000000000000000000004621649600000000000000000000485112500000000000000000000000004152546700000000000000000000485100000000000000000000000000004432325000000000000000000000485087500000000000000000000000004681391500000000000000000000485075000000000000000000000000004597385700000000000000000000485062500000000000000000000000004857326100000000000000000000485050000000000000000000000000004385581200000000000000000000485037500000000000000000000000004804833400000000000000000000485025000000000000000000000000004746745500000000000000000000485012500000000000000000000000004672259300000000000000000000485000000000000000000000,
    4558663700000000000000000000486587500000000000000000000000004601490400000000000000000000486575000000000000000000000000004705062400000000000000000000486562500000000000000000000000005491036700000000000000000000486550000000000000000000000000005152033400000000000000000000486537500000000000000000000000004414525400000000000000000000486525000000000000000000000000004343382800000000000000000000486512500000000000000000000000004307973100000000000000000000486500000000000000000000000000004603138800000000000000000000486487500000000000000000000000004530895800000000000000000000486475000000000000000000000000004292258600000000000000000000486462500000000000000000000000004515454800000000000000000000486450000000000000000000000000005207628400000000000000000000486437500000000000000000000000004952672700000000000000000000486425000000000000000000000000004687666400000000000000000000486412500000000000000000000000004868290300000000000000000000486400000000000000000000000000004483410200000000000000000000486387500000000000000000000000004438212900000000000000000000486375000000000000000000000000004361204800000000000000000000486362500000000000000000000000004777872000000000000000000000486350000000000000000000000000004839097400000000000000000000486337500000000000000000000000004365833200000000000000000000486325000000000000000000000000004873383300000000000000000000486312500000000000000000000000005537022100000000000000000000486300000000000000000000000000004997644600000000000000000000486287500000000000000000000000004919143300000000000000000000486275000000000000000000000000004737683800000000000000000000486262500000000000000000000000004467581800000000000000000000486250000000000000000000000000004380602800000000000000000000486237500000000000000000000000004614570000000000000000000000486225000000000000000000000000004466879500000000000000000000486212500000000000000000000000005278277000000000000000000000486200000000000000000000000000005699995100000000000000000000486187500000000000000000000000005053271100000000000000000000486175000000000000000000000000004711707800000000000000000000486162500000000000000000000000005016473700000000000000000000486150000000000000000000000000005045527100000000000000000000486137500000000000000000000000004566759200000000000000000000486125000000000000000000000000004525516900000000000000000000486112500000000000000000000000005012033700000000000000000000486100000000000000000000000000004912044200000000000000000000486087500000000000000000000000004752935100000000000000000000486075000000000000000000000000004823580800000000000000000000486062500000000000000000000000004429267900000000000000000000486050000000000000000000000000004896274500000000000000000000486037500000000000000000000000004838410300000000000000000000486025000000000000000000000000004827973000000000000000000000486012500000000000000000000000004816170900000000000000000000486000000000000000000000000000004889234300000000000000000000485987500000000000000000000000004504431000000000000000000000485975000000000000000000000000004898090900000000000000000000485962500000000000000000000000005167557700000000000000000000485950000000000000000000000000004975283500000000000000000000485937500000000000000000000000004845839200000000000000000000485925000000000000000000000000004649693100000000000000000000485912500000000000000000000000004836077300000000000000000000485900000000000000000000000000004692819400000000000000000000485887500000000000000000000000004726001000000000000000000000485875000000000000000000000000004424593200000000000000000000485862500000000000000000000000004512748000000000000000000000485850000000000000000000000000004778318000000000000000000000485837500000000000000000000000004944040600000000000000000000485825000000000000000000000000004640080900000000000000000000485812500000000000000000000000004615397100000000000000000000485800000000000000000000,
    4468645500000000000000000000487387500000000000000000000000004491354200000000000000000000487375000000000000000000000000004652807100000000000000000000487362500000000000000000000000004543405900000000000000000000487350000000000000000000000000005103902200000000000000000000487337500000000000000000000000004812869000000000000000000000487325000000000000000000000000004475753800000000000000000000487312500000000000000000000000004842500100000000000000000000487300000000000000000000000000004871649900000000000000000000487287500000000000000000000000004796891100000000000000000000487275000000000000000000000000004418347900000000000000000000487262500000000000000000000000004345621300000000000000000000487250000000000000000000000000004875128700000000000000000000487237500000000000000000000000004918142100000000000000000000487225000000000000000000000000004882806600000000000000000000487212500000000000000000000000004886967000000000000000000000487200000000000000000000000000004814198200000000000000000000487187500000000000000000000000004881316200000000000000000000487175000000000000000000000000004657962600000000000000000000487162500000000000000000000000004982453600000000000000000000487150000000000000000000000000005034832300000000000000000000487137500000000000000000000000005205956600000000000000000000487125000000000000000000000000004817950900000000000000000000487112500000000000000000000000004826565100000000000000000000487100000000000000000000000000005073358100000000000000000000487087500000000000000000000000005170217700000000000000000000487075000000000000000000000000004639866800000000000000000000487062500000000000000000000000004466958300000000000000000000487050000000000000000000000000004395766000000000000000000000487037500000000000000000000000004497661300000000000000000000487025000000000000000000000000004447846700000000000000000000487012500000000000000000000000004525107300000000000000000000487000000000000000000000000000004741535800000000000000000000486987500000000000000000000000004448773400000000000000000000486975000000000000000000000000004536715400000000000000000000486962500000000000000000000000004654528900000000000000000000486950000000000000000000000000005020780100000000000000000000486937500000000000000000000000005200729500000000000000000000486925000000000000000000000000004415492100000000000000000000486912500000000000000000000000004374230000000000000000000000486900000000000000000000000000004754191300000000000000000000486887500000000000000000000000004668686300000000000000000000486875000000000000000000000000004682375100000000000000000000486862500000000000000000000000004275121100000000000000000000486850000000000000000000000000004331832300000000000000000000486837500000000000000000000000004276254700000000000000000000486825000000000000000000000000004766397200000000000000000000486812500000000000000000000000004687791500000000000000000000486800000000000000000000000000004279373200000000000000000000486787500000000000000000000000003911626500000000000000000000486775000000000000000000000000004132020200000000000000000000486762500000000000000000000000004711475900000000000000000000486750000000000000000000000000004677213200000000000000000000486737500000000000000000000000004613361900000000000000000000486725000000000000000000000000004248193600000000000000000000486712500000000000000000000000004479047600000000000000000000486700000000000000000000000000004651967600000000000000000000486687500000000000000000000000004346936200000000000000000000486675000000000000000000000000004629961100000000000000000000486662500000000000000000000000004551497200000000000000000000486650000000000000000000000000004376905000000000000000000000486637500000000000000000000000004423603700000000000000000000486625000000000000000000000000004589024900000000000000000000486612500000000000000000000000004636875700000000000000000000486600000000000000000000,
    4143153100000000000000000000488187500000000000000000000000004359061800000000000000000000488175000000000000000000000000004661330800000000000000000000488162500000000000000000000000004875338500000000000000000000488150000000000000000000000000004810408400000000000000000000488137500000000000000000000000004928277800000000000000000000488125000000000000000000000000004878627600000000000000000000488112500000000000000000000000004741738300000000000000000000488100000000000000000000000000004590692300000000000000000000488087500000000000000000000000004805319100000000000000000000488075000000000000000000000000004917187200000000000000000000488062500000000000000000000000004986180100000000000000000000488050000000000000000000000000004600916300000000000000000000488037500000000000000000000000004667873400000000000000000000488025000000000000000000000000005002725300000000000000000000488012500000000000000000000000004810799100000000000000000000488000000000000000000000000000004414629000000000000000000000487987500000000000000000000000004373248400000000000000000000487975000000000000000000000000004347869000000000000000000000487962500000000000000000000000004346731900000000000000000000487950000000000000000000000000004076414800000000000000000000487937500000000000000000000000004861190200000000000000000000487925000000000000000000000000004659290400000000000000000000487912500000000000000000000000004386934500000000000000000000487900000000000000000000000000004651577800000000000000000000487887500000000000000000000000004648639700000000000000000000487875000000000000000000000000004778221000000000000000000000487862500000000000000000000000004666141600000000000000000000487850000000000000000000000000004992172900000000000000000000487837500000000000000000000000005048680700000000000000000000487825000000000000000000000000004792662200000000000000000000487812500000000000000000000000004332156200000000000000000000487800000000000000000000000000004503176300000000000000000000487787500000000000000000000000004732000400000000000000000000487775000000000000000000000000004988110700000000000000000000487762500000000000000000000000004799079300000000000000000000487750000000000000000000000000004968586100000000000000000000487737500000000000000000000000004643582800000000000000000000487725000000000000000000000000004658093000000000000000000000487712500000000000000000000000004716164800000000000000000000487700000000000000000000000000004872715000000000000000000000487687500000000000000000000000004571971500000000000000000000487675000000000000000000000000004508294800000000000000000000487662500000000000000000000000004569320800000000000000000000487650000000000000000000000000004432731400000000000000000000487637500000000000000000000000004596235800000000000000000000487625000000000000000000000000004618510200000000000000000000487612500000000000000000000000004605034400000000000000000000487600000000000000000000000000004908067700000000000000000000487587500000000000000000000000004837583400000000000000000000487575000000000000000000000000004225420800000000000000000000487562500000000000000000000000004368326900000000000000000000487550000000000000000000000000004682511600000000000000000000487537500000000000000000000000004944751800000000000000000000487525000000000000000000000000004931057100000000000000000000487512500000000000000000000000005098711600000000000000000000487500000000000000000000000000004663290700000000000000000000487487500000000000000000000000004472825700000000000000000000487475000000000000000000000000004608203100000000000000000000487462500000000000000000000000004582322500000000000000000000487450000000000000000000000000004530725700000000000000000000487437500000000000000000000000004827378500000000000000000000487425000000000000000000000000004778818100000000000000000000487412500000000000000000000000004689876200000000000000000000487400000000000000000000,
    4793345600000000000000000000488987500000000000000000000000004888286800000000000000000000488975000000000000000000000000005077668900000000000000000000488962500000000000000000000000004692288600000000000000000000488950000000000000000000000000004809729200000000000000000000488937500000000000000000000000004742914100000000000000000000488925000000000000000000000000005015909100000000000000000000488912500000000000000000000000004867805800000000000000000000488900000000000000000000000000004603880800000000000000000000488887500000000000000000000000004639407600000000000000000000488875000000000000000000000000005036965200000000000000000000488862500000000000000000000000004778061500000000000000000000488850000000000000000000000000004642753700000000000000000000488837500000000000000000000000004885108200000000000000000000488825000000000000000000000000005234421300000000000000000000488812500000000000000000000000004745809900000000000000000000488800000000000000000000000000004463011900000000000000000000488787500000000000000000000000004435534700000000000000000000488775000000000000000000000000004564759400000000000000000000488762500000000000000000000000004643828900000000000000000000488750000000000000000000000000004893736900000000000000000000488737500000000000000000000000004682570700000000000000000000488725000000000000000000000000004700819400000000000000000000488712500000000000000000000000004596077400000000000000000000488700000000000000000000000000004609019000000000000000000000488687500000000000000000000000005132502000000000000000000000488675000000000000000000000000004874031000000000000000000000488662500000000000000000000000004825662100000000000000000000488650000000000000000000000000004547836800000000000000000000488637500000000000000000000000004453468800000000000000000000488625000000000000000000000000004949684400000000000000000000488612500000000000000000000000005202429500000000000000000000488600000000000000000000000000005088048100000000000000000000488587500000000000000000000000005144383200000000000000000000488575000000000000000000000000005051579900000000000000000000488562500000000000000000000000005286488500000000000000000000488550000000000000000000000000005134488100000000000000000000488537500000000000000000000000005166009400000000000000000000488525000000000000000000000000005193211300000000000000000000488512500000000000000000000000004497504000000000000000000000488500000000000000000000000000004813614800000000000000000000488487500000000000000000000000004679896200000000000000000000488475000000000000000000000000004661708500000000000000000000488462500000000000000000000000004450182100000000000000000000488450000000000000000000000000004698139500000000000000000000488437500000000000000000000000004639949100000000000000000000488425000000000000000000000000004520239200000000000000000000488412500000000000000000000000004391488200000000000000000000488400000000000000000000000000004469639700000000000000000000488387500000000000000000000000004741776600000000000000000000488375000000000000000000000000004561727200000000000000000000488362500000000000000000000000004559138000000000000000000000488350000000000000000000000000004833480300000000000000000000488337500000000000000000000000004902801500000000000000000000488325000000000000000000000000004708629100000000000000000000488312500000000000000000000000004470376500000000000000000000488300000000000000000000000000004968144700000000000000000000488287500000000000000000000000005136622300000000000000000000488275000000000000000000000000004853737000000000000000000000488262500000000000000000000000005154490200000000000000000000488250000000000000000000000000005089393100000000000000000000488237500000000000000000000000004864819600000000000000000000488225000000000000000000000000004785323000000000000000000000488212500000000000000000000000004581828600000000000000000000488200000000000000000000,
    4791752300000000000000000000489787500000000000000000000000004762592200000000000000000000489775000000000000000000000000004600178800000000000000000000489762500000000000000000000000004634799400000000000000000000489750000000000000000000000000004447391000000000000000000000489737500000000000000000000000004359501200000000000000000000489725000000000000000000000000004459243300000000000000000000489712500000000000000000000000004779326300000000000000000000489700000000000000000000000000005004445200000000000000000000489687500000000000000000000000004793035100000000000000000000489675000000000000000000000000004772657300000000000000000000489662500000000000000000000000004857465100000000000000000000489650000000000000000000000000004909401500000000000000000000489637500000000000000000000000004901555100000000000000000000489625000000000000000000000000004775145800000000000000000000489612500000000000000000000000004954347700000000000000000000489600000000000000000000000000004910973500000000000000000000489587500000000000000000000000004527779300000000000000000000489575000000000000000000000000004580161800000000000000000000489562500000000000000000000000004428835500000000000000000000489550000000000000000000000000004661139800000000000000000000489537500000000000000000000000005046101200000000000000000000489525000000000000000000000000004906591900000000000000000000489512500000000000000000000000004716383600000000000000000000489500000000000000000000000000005061149900000000000000000000489487500000000000000000000000005358741800000000000000000000489475000000000000000000000000004979610400000000000000000000489462500000000000000000000000004534061300000000000000000000489450000000000000000000000000004684450900000000000000000000489437500000000000000000000000004811529500000000000000000000489425000000000000000000000000004572254200000000000000000000489412500000000000000000000000004595051000000000000000000000489400000000000000000000000000004650858000000000000000000000489387500000000000000000000000004712336300000000000000000000489375000000000000000000000000004922268200000000000000000000489362500000000000000000000000005169519200000000000000000000489350000000000000000000000000004922885200000000000000000000489337500000000000000000000000004829984900000000000000000000489325000000000000000000000000004787887000000000000000000000489312500000000000000000000000004492218400000000000000000000489300000000000000000000000000004654833800000000000000000000489287500000000000000000000000004884467000000000000000000000489275000000000000000000000000004758400800000000000000000000489262500000000000000000000000004509419000000000000000000000489250000000000000000000000000004695375700000000000000000000489237500000000000000000000000005127231100000000000000000000489225000000000000000000000000005215970200000000000000000000489212500000000000000000000000004814270100000000000000000000489200000000000000000000000000004692189900000000000000000000489187500000000000000000000000004458427700000000000000000000489175000000000000000000000000004243317700000000000000000000489162500000000000000000000000004671502200000000000000000000489150000000000000000000000000004671530400000000000000000000489137500000000000000000000000004332754400000000000000000000489125000000000000000000000000004426191700000000000000000000489112500000000000000000000000004524056600000000000000000000489100000000000000000000000000004476078000000000000000000000489087500000000000000000000000004408541900000000000000000000489075000000000000000000000000004471575700000000000000000000489062500000000000000000000000004788597000000000000000000000489050000000000000000000000000004674521200000000000000000000489037500000000000000000000000004677493300000000000000000000489025000000000000000000000000004694708800000000000000000000489012500000000000000000000000004651047800000000000000000000489000000000000000000000,
    4847146600000000000000000000490587500000000000000000000000004553342400000000000000000000490575000000000000000000000000004507376700000000000000000000490562500000000000000000000000004731580400000000000000000000490550000000000000000000000000004850089700000000000000000000490537500000000000000000000000004947817500000000000000000000490525000000000000000000000000004519831700000000000000000000490512500000000000000000000000004644195500000000000000000000490500000000000000000000000000004708803700000000000000000000490487500000000000000000000000004995340600000000000000000000490475000000000000000000000000005174495000000000000000000000490462500000000000000000000000004950412400000000000000000000490450000000000000000000000000004806213000000000000000000000490437500000000000000000000000004831998500000000000000000000490425000000000000000000000000004765611500000000000000000000490412500000000000000000000000004911631600000000000000000000490400000000000000000000000000004816539600000000000000000000490387500000000000000000000000004749190600000000000000000000490375000000000000000000000000005183749300000000000000000000490362500000000000000000000000004767482900000000000000000000490350000000000000000000000000004322222800000000000000000000490337500000000000000000000000004557559000000000000000000000490325000000000000000000000000004801568500000000000000000000490312500000000000000000000000004705764100000000000000000000490300000000000000000000000000004603254200000000000000000000490287500000000000000000000000004451457300000000000000000000490275000000000000000000000000004730704800000000000000000000490262500000000000000000000000004971900000000000000000000000490250000000000000000000000000005005412000000000000000000000490237500000000000000000000000004696470800000000000000000000490225000000000000000000000000004472339900000000000000000000490212500000000000000000000000004530727200000000000000000000490200000000000000000000000000004360982200000000000000000000490187500000000000000000000000004504341500000000000000000000490175000000000000000000000000004727532500000000000000000000490162500000000000000000000000004884202000000000000000000000490150000000000000000000000000005071457000000000000000000000490137500000000000000000000000004914758200000000000000000000490125000000000000000000000000004792331900000000000000000000490112500000000000000000000000004817517900000000000000000000490100000000000000000000000000004712727200000000000000000000490087500000000000000000000000004424462400000000000000000000490075000000000000000000000000004815918700000000000000000000490062500000000000000000000000004847993900000000000000000000490050000000000000000000000000004528225600000000000000000000490037500000000000000000000000004848199600000000000000000000490025000000000000000000000000004800130000000000000000000000490012500000000000000000000000004766367500000000000000000000490000000000000000000000000000005057784300000000000000000000489987500000000000000000000000004674103700000000000000000000489975000000000000000000000000004686968400000000000000000000489962500000000000000000000000004658100300000000000000000000489950000000000000000000000000004360671200000000000000000000489937500000000000000000000000004345396600000000000000000000489925000000000000000000000000004632030200000000000000000000489912500000000000000000000000004629452400000000000000000000489900000000000000000000000000005001889100000000000000000000489887500000000000000000000000004982237600000000000000000000489875000000000000000000000000004648978400000000000000000000489862500000000000000000000000005024979800000000000000000000489850000000000000000000000000004746463400000000000000000000489837500000000000000000000000004770288500000000000000000000489825000000000000000000000000004833162300000000000000000000489812500000000000000000000000004543835300000000000000000000489800000000000000000000,
    4633791600000000000000000000491387500000000000000000000000004533161300000000000000000000491375000000000000000000000000004555915700000000000000000000491362500000000000000000000000004637692800000000000000000000491350000000000000000000000000004351033200000000000000000000491337500000000000000000000000004457899700000000000000000000491325000000000000000000000000004910886400000000000000000000491312500000000000000000000000004888868900000000000000000000491300000000000000000000000000004734680700000000000000000000491287500000000000000000000000005019583100000000000000000000491275000000000000000000000000005148589000000000000000000000491262500000000000000000000000005245646200000000000000000000491250000000000000000000000000004870695000000000000000000000491237500000000000000000000000004659886800000000000000000000491225000000000000000000000000004546924700000000000000000000491212500000000000000000000000004350914100000000000000000000491200000000000000000000000000004816573900000000000000000000491187500000000000000000000000004970155300000000000000000000491175000000000000000000000000004966237000000000000000000000491162500000000000000000000000005016787000000000000000000000491150000000000000000000000000004822981700000000000000000000491137500000000000000000000000004625673400000000000000000000491125000000000000000000000000004629860400000000000000000000491112500000000000000000000000005053400600000000000000000000491100000000000000000000000000005147389600000000000000000000491087500000000000000000000000005141144000000000000000000000491075000000000000000000000000005215634500000000000000000000491062500000000000000000000000005078438300000000000000000000491050000000000000000000000000004998429700000000000000000000491037500000000000000000000000004870884800000000000000000000491025000000000000000000000000004644629000000000000000000000491012500000000000000000000000004712924500000000000000000000491000000000000000000000000000004507369400000000000000000000490987500000000000000000000000004614937900000000000000000000490975000000000000000000000000004615318200000000000000000000490962500000000000000000000000004853167100000000000000000000490950000000000000000000000000005091810000000000000000000000490937500000000000000000000000005107741100000000000000000000490925000000000000000000000000005172768800000000000000000000490912500000000000000000000000005083562100000000000000000000490900000000000000000000000000004745094800000000000000000000490887500000000000000000000000004943258100000000000000000000490875000000000000000000000000004708436300000000000000000000490862500000000000000000000000004431573500000000000000000000490850000000000000000000000000004463645600000000000000000000490837500000000000000000000000004740002900000000000000000000490825000000000000000000000000004443618400000000000000000000490812500000000000000000000000004411492500000000000000000000490800000000000000000000000000004304613300000000000000000000490787500000000000000000000000004576682000000000000000000000490775000000000000000000000000004730847700000000000000000000490762500000000000000000000000004733440700000000000000000000490750000000000000000000000000004875094700000000000000000000490737500000000000000000000000004504381100000000000000000000490725000000000000000000000000004227809100000000000000000000490712500000000000000000000000004641182700000000000000000000490700000000000000000000000000004992340300000000000000000000490687500000000000000000000000004953647400000000000000000000490675000000000000000000000000004738506300000000000000000000490662500000000000000000000000005088366600000000000000000000490650000000000000000000000000004946955500000000000000000000490637500000000000000000000000004720234500000000000000000000490625000000000000000000000000004709980300000000000000000000490612500000000000000000000000004902269300000000000000000000490600000000000000000000,
    4498235500000000000000000000492187500000000000000000000000004591878700000000000000000000492175000000000000000000000000004640804500000000000000000000492162500000000000000000000000004539152200000000000000000000492150000000000000000000000000005068912900000000000000000000492137500000000000000000000000005036595000000000000000000000492125000000000000000000000000005084873600000000000000000000492112500000000000000000000000005028955300000000000000000000492100000000000000000000000000004854505300000000000000000000492087500000000000000000000000005003931200000000000000000000492075000000000000000000000000004867430000000000000000000000492062500000000000000000000000004580766500000000000000000000492050000000000000000000000000004120966300000000000000000000492037500000000000000000000000004479095500000000000000000000492025000000000000000000000000004381362000000000000000000000492012500000000000000000000000004701026000000000000000000000492000000000000000000000000000004709046300000000000000000000491987500000000000000000000000004542718600000000000000000000491975000000000000000000000000005062985000000000000000000000491962500000000000000000000000004859939900000000000000000000491950000000000000000000000000004601962800000000000000000000491937500000000000000000000000004405502100000000000000000000491925000000000000000000000000004518640900000000000000000000491912500000000000000000000000004602685700000000000000000000491900000000000000000000000000004873553200000000000000000000491887500000000000000000000000004312972900000000000000000000491875000000000000000000000000004587466300000000000000000000491862500000000000000000000000004914980900000000000000000000491850000000000000000000000000004372739400000000000000000000491837500000000000000000000000004630840500000000000000000000491825000000000000000000000000004700004400000000000000000000491812500000000000000000000000004885714400000000000000000000491800000000000000000000000000004729122900000000000000000000491787500000000000000000000000004449298200000000000000000000491775000000000000000000000000004549274600000000000000000000491762500000000000000000000000004838712800000000000000000000491750000000000000000000000000004831948200000000000000000000491737500000000000000000000000004601535200000000000000000000491725000000000000000000000000004644077500000000000000000000491712500000000000000000000000004642662100000000000000000000491700000000000000000000000000004383323400000000000000000000491687500000000000000000000000004478081500000000000000000000491675000000000000000000000000004537931900000000000000000000491662500000000000000000000000004297586400000000000000000000491650000000000000000000000000004552054200000000000000000000491637500000000000000000000000004726594300000000000000000000491625000000000000000000000000005048966200000000000000000000491612500000000000000000000000005001171800000000000000000000491600000000000000000000000000004620132400000000000000000000491587500000000000000000000000004937336700000000000000000000491575000000000000000000000000005256742200000000000000000000491562500000000000000000000000005195580200000000000000000000491550000000000000000000000000004899416000000000000000000000491537500000000000000000000000004990854800000000000000000000491525000000000000000000000000005256138900000000000000000000491512500000000000000000000000005449122600000000000000000000491500000000000000000000000000004986268500000000000000000000491487500000000000000000000000004620570600000000000000000000491475000000000000000000000000004642864300000000000000000000491462500000000000000000000000004259116200000000000000000000491450000000000000000000000000004473919100000000000000000000491437500000000000000000000000004637595300000000000000000000491425000000000000000000000000004606039900000000000000000000491412500000000000000000000000005099708200000000000000000000491400000000000000000000,
    5129326300000000000000000000492987500000000000000000000000004859670700000000000000000000492975000000000000000000000000004583805500000000000000000000492962500000000000000000000000004723260600000000000000000000492950000000000000000000000000005157569300000000000000000000492937500000000000000000000000004780318100000000000000000000492925000000000000000000000000004859428500000000000000000000492912500000000000000000000000005041052300000000000000000000492900000000000000000000000000004736867100000000000000000000492887500000000000000000000000004556671100000000000000000000492875000000000000000000000000004881521700000000000000000000492862500000000000000000000000004819443300000000000000000000492850000000000000000000000000004826038500000000000000000000492837500000000000000000000000004655576300000000000000000000492825000000000000000000000000004701284400000000000000000000492812500000000000000000000000004622593600000000000000000000492800000000000000000000000000004406350400000000000000000000492787500000000000000000000000004740497500000000000000000000492775000000000000000000000000005146355300000000000000000000492762500000000000000000000000005045560700000000000000000000492750000000000000000000000000004643894000000000000000000000492737500000000000000000000000004670989900000000000000000000492725000000000000000000000000004711719900000000000000000000492712500000000000000000000000004762739100000000000000000000492700000000000000000000000000004826923800000000000000000000492687500000000000000000000000004881720900000000000000000000492675000000000000000000000000005037445700000000000000000000492662500000000000000000000000004713639400000000000000000000492650000000000000000000000000004337580100000000000000000000492637500000000000000000000000004631052000000000000000000000492625000000000000000000000000004972848400000000000000000000492612500000000000000000000000004848707100000000000000000000492600000000000000000000000000005079427000000000000000000000492587500000000000000000000000004703767000000000000000000000492575000000000000000000000000004598272300000000000000000000492562500000000000000000000000004703906400000000000000000000492550000000000000000000000000004800864000000000000000000000492537500000000000000000000000004531488900000000000000000000492525000000000000000000000000004691519200000000000000000000492512500000000000000000000000004878730100000000000000000000492500000000000000000000000000005119820900000000000000000000492487500000000000000000000000005106188500000000000000000000492475000000000000000000000000004839281800000000000000000000492462500000000000000000000000004773974200000000000000000000492450000000000000000000000000004702586700000000000000000000492437500000000000000000000000004764451000000000000000000000492425000000000000000000000000004817342100000000000000000000492412500000000000000000000000004626636500000000000000000000492400000000000000000000000000004812072300000000000000000000492387500000000000000000000000005164913400000000000000000000492375000000000000000000000000005124315600000000000000000000492362500000000000000000000000004817909800000000000000000000492350000000000000000000000000004745063600000000000000000000492337500000000000000000000000004549834100000000000000000000492325000000000000000000000000004252261600000000000000000000492312500000000000000000000000004619487100000000000000000000492300000000000000000000000000004507766700000000000000000000492287500000000000000000000000004074100900000000000000000000492275000000000000000000000000004541277300000000000000000000492262500000000000000000000000004793240400000000000000000000492250000000000000000000000000004939503300000000000000000000492237500000000000000000000000005027617300000000000000000000492225000000000000000000000000004998928800000000000000000000492212500000000000000000000000005054572900000000000000000000492200000000000000000000,
    4645503400000000000000000000493787500000000000000000000000004526723200000000000000000000493775000000000000000000000000004585520200000000000000000000493762500000000000000000000000004588182800000000000000000000493750000000000000000000000000004818446200000000000000000000493737500000000000000000000000004558053200000000000000000000493725000000000000000000000000004479178600000000000000000000493712500000000000000000000000004567209800000000000000000000493700000000000000000000000000004719811600000000000000000000493687500000000000000000000000004540553200000000000000000000493675000000000000000000000000004706266900000000000000000000493662500000000000000000000000004761602400000000000000000000493650000000000000000000000000004802286200000000000000000000493637500000000000000000000000004631956000000000000000000000493625000000000000000000000000004739027000000000000000000000493612500000000000000000000000004370621400000000000000000000493600000000000000000000000000004344400400000000000000000000493587500000000000000000000000004853119000000000000000000000493575000000000000000000000000004898478000000000000000000000493562500000000000000000000000004929950000000000000000000000493550000000000000000000000000005006733000000000000000000000493537500000000000000000000000004978195100000000000000000000493525000000000000000000000000004403148500000000000000000000493512500000000000000000000000004998064800000000000000000000493500000000000000000000000000004969822200000000000000000000493487500000000000000000000000004514546100000000000000000000493475000000000000000000000000004350181300000000000000000000493462500000000000000000000000004484633900000000000000000000493450000000000000000000000000004696395400000000000000000000493437500000000000000000000000004708441800000000000000000000493425000000000000000000000000004432007200000000000000000000493412500000000000000000000000004098822200000000000000000000493400000000000000000000000000004583735000000000000000000000493387500000000000000000000000004629737400000000000000000000493375000000000000000000000000004463840100000000000000000000493362500000000000000000000000004634755300000000000000000000493350000000000000000000000000004719047400000000000000000000493337500000000000000000000000004996232800000000000000000000493325000000000000000000000000005027312000000000000000000000493312500000000000000000000000005015719900000000000000000000493300000000000000000000000000005236205700000000000000000000493287500000000000000000000000004825589100000000000000000000493275000000000000000000000000004877108600000000000000000000493262500000000000000000000000004738843200000000000000000000493250000000000000000000000000004861144000000000000000000000493237500000000000000000000000004633788900000000000000000000493225000000000000000000000000005130624600000000000000000000493212500000000000000000000000004795284300000000000000000000493200000000000000000000000000004566472700000000000000000000493187500000000000000000000000004852544600000000000000000000493175000000000000000000000000005037022900000000000000000000493162500000000000000000000000004755107500000000000000000000493150000000000000000000000000004548579000000000000000000000493137500000000000000000000000004884816100000000000000000000493125000000000000000000000000004791339500000000000000000000493112500000000000000000000000004664693900000000000000000000493100000000000000000000000000004518270900000000000000000000493087500000000000000000000000005297279600000000000000000000493075000000000000000000000000005136061400000000000000000000493062500000000000000000000000004863560400000000000000000000493050000000000000000000000000005051064200000000000000000000493037500000000000000000000000005016067800000000000000000000493025000000000000000000000000005212369700000000000000000000493012500000000000000000000000005048269200000000000000000000493000000000000000000000,
    4642058400000000000000000000494587500000000000000000000000004631412700000000000000000000494575000000000000000000000000004729913100000000000000000000494562500000000000000000000000004778303700000000000000000000494550000000000000000000000000004853066600000000000000000000494537500000000000000000000000004808661500000000000000000000494525000000000000000000000000004886189300000000000000000000494512500000000000000000000000005049755900000000000000000000494500000000000000000000000000004873908300000000000000000000494487500000000000000000000000004883217200000000000000000000494475000000000000000000000000004813564500000000000000000000494462500000000000000000000000004801083200000000000000000000494450000000000000000000000000005077824100000000000000000000494437500000000000000000000000004885699800000000000000000000494425000000000000000000000000004943264700000000000000000000494412500000000000000000000000004771091600000000000000000000494400000000000000000000000000004429725300000000000000000000494387500000000000000000000000004445686400000000000000000000494375000000000000000000000000004618798800000000000000000000494362500000000000000000000000004780407200000000000000000000494350000000000000000000000000004548682200000000000000000000494337500000000000000000000000004731626400000000000000000000494325000000000000000000000000004906031200000000000000000000494312500000000000000000000000004984907800000000000000000000494300000000000000000000000000004591856800000000000000000000494287500000000000000000000000004492194100000000000000000000494275000000000000000000000000004679028200000000000000000000494262500000000000000000000000004824527600000000000000000000494250000000000000000000000000004654624700000000000000000000494237500000000000000000000000005045555800000000000000000000494225000000000000000000000000005098491800000000000000000000494212500000000000000000000000005022800900000000000000000000494200000000000000000000000000004898885400000000000000000000494187500000000000000000000000004691957000000000000000000000494175000000000000000000000000004577232400000000000000000000494162500000000000000000000000004649049100000000000000000000494150000000000000000000000000004889113700000000000000000000494137500000000000000000000000004810415200000000000000000000494125000000000000000000000000004712001000000000000000000000494112500000000000000000000000004607899400000000000000000000494100000000000000000000000000004521468600000000000000000000494087500000000000000000000000004492737300000000000000000000494075000000000000000000000000004845940300000000000000000000494062500000000000000000000000005031972800000000000000000000494050000000000000000000000000004860071900000000000000000000494037500000000000000000000000004576998400000000000000000000494025000000000000000000000000004816015200000000000000000000494012500000000000000000000000004818376200000000000000000000494000000000000000000000000000004611542700000000000000000000493987500000000000000000000000004715487200000000000000000000493975000000000000000000000000004582634700000000000000000000493962500000000000000000000000004827835900000000000000000000493950000000000000000000000000004742314500000000000000000000493937500000000000000000000000005007603300000000000000000000493925000000000000000000000000005430466700000000000000000000493912500000000000000000000000005231552000000000000000000000493900000000000000000000000000004744007000000000000000000000493887500000000000000000000000004604224000000000000000000000493875000000000000000000000000004667812000000000000000000000493862500000000000000000000000004804386600000000000000000000493850000000000000000000000000004617682800000000000000000000493837500000000000000000000000004827519500000000000000000000493825000000000000000000000000005005283500000000000000000000493812500000000000000000000000005022654800000000000000000000493800000000000000000000,
    4727772200000000000000000000495387500000000000000000000000004816208000000000000000000000495375000000000000000000000000004681560900000000000000000000495362500000000000000000000000004593841300000000000000000000495350000000000000000000000000004573304700000000000000000000495337500000000000000000000000004803310800000000000000000000495325000000000000000000000000005072862500000000000000000000495312500000000000000000000000005084906400000000000000000000495300000000000000000000000000004839575400000000000000000000495287500000000000000000000000004757861800000000000000000000495275000000000000000000000000004513678400000000000000000000495262500000000000000000000000004425668200000000000000000000495250000000000000000000000000004570196900000000000000000000495237500000000000000000000000004550401400000000000000000000495225000000000000000000000000004494638700000000000000000000495212500000000000000000000000004469984100000000000000000000495200000000000000000000000000004649294100000000000000000000495187500000000000000000000000004888478200000000000000000000495175000000000000000000000000004535952300000000000000000000495162500000000000000000000000004942557500000000000000000000495150000000000000000000000000004944105900000000000000000000495137500000000000000000000000005252867400000000000000000000495125000000000000000000000000005433678400000000000000000000495112500000000000000000000000004586782600000000000000000000495100000000000000000000000000004170064400000000000000000000495087500000000000000000000000004702536700000000000000000000495075000000000000000000000000004780457400000000000000000000495062500000000000000000000000004406539400000000000000000000495050000000000000000000000000004612931500000000000000000000495037500000000000000000000000004607544500000000000000000000495025000000000000000000000000004859980500000000000000000000495012500000000000000000000000004939042200000000000000000000495000000000000000000000000000005020902200000000000000000000494987500000000000000000000000004767134600000000000000000000494975000000000000000000000000004668971300000000000000000000494962500000000000000000000000004336609600000000000000000000494950000000000000000000000000004718211400000000000000000000494937500000000000000000000000004863136100000000000000000000494925000000000000000000000000004759215300000000000000000000494912500000000000000000000000004717310100000000000000000000494900000000000000000000000000004709865400000000000000000000494887500000000000000000000000004404279600000000000000000000494875000000000000000000000000004833870800000000000000000000494862500000000000000000000000004904292700000000000000000000494850000000000000000000000000004680986500000000000000000000494837500000000000000000000000004703116200000000000000000000494825000000000000000000000000004970247700000000000000000000494812500000000000000000000000005147874600000000000000000000494800000000000000000000000000005062132300000000000000000000494787500000000000000000000000005031067500000000000000000000494775000000000000000000000000005198796900000000000000000000494762500000000000000000000000004573601100000000000000000000494750000000000000000000000000004920605800000000000000000000494737500000000000000000000000004858204100000000000000000000494725000000000000000000000000004377224100000000000000000000494712500000000000000000000000004311756500000000000000000000494700000000000000000000000000004463413300000000000000000000494687500000000000000000000000004763444600000000000000000000494675000000000000000000000000004912338400000000000000000000494662500000000000000000000000005122720500000000000000000000494650000000000000000000000000004961361000000000000000000000494637500000000000000000000000005207155200000000000000000000494625000000000000000000000000005226219600000000000000000000494612500000000000000000000000005153860400000000000000000000494600000000000000000000,
    4916688000000000000000000000496187500000000000000000000000004838930100000000000000000000496175000000000000000000000000004904746800000000000000000000496162500000000000000000000000005042305000000000000000000000496150000000000000000000000000004854542300000000000000000000496137500000000000000000000000005057917500000000000000000000496125000000000000000000000000005120209200000000000000000000496112500000000000000000000000004672850000000000000000000000496100000000000000000000000000004833349200000000000000000000496087500000000000000000000000005033957500000000000000000000496075000000000000000000000000005154022000000000000000000000496062500000000000000000000000004895834000000000000000000000496050000000000000000000000000004768915000000000000000000000496037500000000000000000000000004591367900000000000000000000496025000000000000000000000000004678274900000000000000000000496012500000000000000000000000004809708300000000000000000000496000000000000000000000000000004879080600000000000000000000495987500000000000000000000000004623941600000000000000000000495975000000000000000000000000005183742200000000000000000000495962500000000000000000000000005128164600000000000000000000495950000000000000000000000000005257256000000000000000000000495937500000000000000000000000005060620400000000000000000000495925000000000000000000000000005180471900000000000000000000495912500000000000000000000000005361644100000000000000000000495900000000000000000000000000005314029100000000000000000000495887500000000000000000000000005166943900000000000000000000495875000000000000000000000000005105864000000000000000000000495862500000000000000000000000004545463300000000000000000000495850000000000000000000000000004735766000000000000000000000495837500000000000000000000000005051522400000000000000000000495825000000000000000000000000004735907600000000000000000000495812500000000000000000000000004606952300000000000000000000495800000000000000000000000000004385148800000000000000000000495787500000000000000000000000004823701300000000000000000000495775000000000000000000000000005157309300000000000000000000495762500000000000000000000000004937589900000000000000000000495750000000000000000000000000005170923600000000000000000000495737500000000000000000000000004965092700000000000000000000495725000000000000000000000000005044506500000000000000000000495712500000000000000000000000004854713700000000000000000000495700000000000000000000000000004810504900000000000000000000495687500000000000000000000000004442872000000000000000000000495675000000000000000000000000004826608300000000000000000000495662500000000000000000000000005053507000000000000000000000495650000000000000000000000000004985249800000000000000000000495637500000000000000000000000004587398700000000000000000000495625000000000000000000000000004652616800000000000000000000495612500000000000000000000000005155661000000000000000000000495600000000000000000000000000005123577600000000000000000000495587500000000000000000000000004929074600000000000000000000495575000000000000000000000000004573614200000000000000000000495562500000000000000000000000004514940600000000000000000000495550000000000000000000000000004365398500000000000000000000495537500000000000000000000000004690956700000000000000000000495525000000000000000000000000004789150700000000000000000000495512500000000000000000000000004785591500000000000000000000495500000000000000000000000000004608227000000000000000000000495487500000000000000000000000004765869500000000000000000000495475000000000000000000000000004711694000000000000000000000495462500000000000000000000000004641498800000000000000000000495450000000000000000000000000004811010700000000000000000000495437500000000000000000000000004795123100000000000000000000495425000000000000000000000000004970228100000000000000000000495412500000000000000000000000004693827900000000000000000000495400000000000000000000,
    5016176800000000000000000000496987500000000000000000000000004734323200000000000000000000496975000000000000000000000000005042487400000000000000000000496962500000000000000000000000005311122900000000000000000000496950000000000000000000000000005053748000000000000000000000496937500000000000000000000000004908090800000000000000000000496925000000000000000000000000004904556700000000000000000000496912500000000000000000000000004994288900000000000000000000496900000000000000000000000000004801302500000000000000000000496887500000000000000000000000004938928700000000000000000000496875000000000000000000000000005120232900000000000000000000496862500000000000000000000000005004499500000000000000000000496850000000000000000000000000005030659600000000000000000000496837500000000000000000000000005151190700000000000000000000496825000000000000000000000000005347934200000000000000000000496812500000000000000000000000005252550400000000000000000000496800000000000000000000000000004864985900000000000000000000496787500000000000000000000000005246393000000000000000000000496775000000000000000000000000005503282400000000000000000000496762500000000000000000000000005409024800000000000000000000496750000000000000000000000000005264098000000000000000000000496737500000000000000000000000005428915900000000000000000000496725000000000000000000000000004979543000000000000000000000496712500000000000000000000000004534886700000000000000000000496700000000000000000000000000004634872500000000000000000000496687500000000000000000000000004733362100000000000000000000496675000000000000000000000000004727752500000000000000000000496662500000000000000000000000004773358900000000000000000000496650000000000000000000000000004534801900000000000000000000496637500000000000000000000000004698077700000000000000000000496625000000000000000000000000004608204500000000000000000000496612500000000000000000000000004671737600000000000000000000496600000000000000000000000000004665517600000000000000000000496587500000000000000000000000004620180700000000000000000000496575000000000000000000000000004803353200000000000000000000496562500000000000000000000000004983076800000000000000000000496550000000000000000000000000004889890700000000000000000000496537500000000000000000000000004482390400000000000000000000496525000000000000000000000000004274843800000000000000000000496512500000000000000000000000004472796600000000000000000000496500000000000000000000000000004373132500000000000000000000496487500000000000000000000000004611758300000000000000000000496475000000000000000000000000004660951500000000000000000000496462500000000000000000000000005050799100000000000000000000496450000000000000000000000000005277780300000000000000000000496437500000000000000000000000004929844700000000000000000000496425000000000000000000000000004896876300000000000000000000496412500000000000000000000000004995654200000000000000000000496400000000000000000000000000004986869000000000000000000000496387500000000000000000000000004838586900000000000000000000496375000000000000000000000000004817446400000000000000000000496362500000000000000000000000005176600100000000000000000000496350000000000000000000000000005222661300000000000000000000496337500000000000000000000000004994160100000000000000000000496325000000000000000000000000005035409600000000000000000000496312500000000000000000000000004960287700000000000000000000496300000000000000000000000000004699534800000000000000000000496287500000000000000000000000004951355200000000000000000000496275000000000000000000000000004625919900000000000000000000496262500000000000000000000000004797687800000000000000000000496250000000000000000000000000004648676600000000000000000000496237500000000000000000000000004710849500000000000000000000496225000000000000000000000000004937507400000000000000000000496212500000000000000000000000005219589000000000000000000000496200000000000000000000,
    4840436200000000000000000000497787500000000000000000000000004749394900000000000000000000497775000000000000000000000000004657022500000000000000000000497762500000000000000000000000004650696300000000000000000000497750000000000000000000000000004929395000000000000000000000497737500000000000000000000000004785770400000000000000000000497725000000000000000000000000004781804900000000000000000000497712500000000000000000000000005018729900000000000000000000497700000000000000000000000000005379575300000000000000000000497687500000000000000000000000005276959100000000000000000000497675000000000000000000000000005047574800000000000000000000497662500000000000000000000000005024402500000000000000000000497650000000000000000000000000004904581800000000000000000000497637500000000000000000000000005030213800000000000000000000497625000000000000000000000000005096883700000000000000000000497612500000000000000000000000005244721900000000000000000000497600000000000000000000000000004720798900000000000000000000497587500000000000000000000000004719979800000000000000000000497575000000000000000000000000004958649500000000000000000000497562500000000000000000000000004836958400000000000000000000497550000000000000000000000000004583759900000000000000000000497537500000000000000000000000004701452900000000000000000000497525000000000000000000000000004791138600000000000000000000497512500000000000000000000000004766740800000000000000000000497500000000000000000000000000004724729500000000000000000000497487500000000000000000000000004447259200000000000000000000497475000000000000000000000000004776380900000000000000000000497462500000000000000000000000004889896000000000000000000000497450000000000000000000000000005277080000000000000000000000497437500000000000000000000000005366127400000000000000000000497425000000000000000000000000004852840400000000000000000000497412500000000000000000000000004506747700000000000000000000497400000000000000000000000000004700148700000000000000000000497387500000000000000000000000004683442800000000000000000000497375000000000000000000000000004735582700000000000000000000497362500000000000000000000000004768679200000000000000000000497350000000000000000000000000005129493800000000000000000000497337500000000000000000000000004885231700000000000000000000497325000000000000000000000000004738604600000000000000000000497312500000000000000000000000004720634600000000000000000000497300000000000000000000000000004736462300000000000000000000497287500000000000000000000000004879362200000000000000000000497275000000000000000000000000005036394400000000000000000000497262500000000000000000000000004663869900000000000000000000497250000000000000000000000000004969759000000000000000000000497237500000000000000000000000005152270600000000000000000000497225000000000000000000000000004963484300000000000000000000497212500000000000000000000000004500393200000000000000000000497200000000000000000000000000004823743600000000000000000000497187500000000000000000000000004907997300000000000000000000497175000000000000000000000000004843834400000000000000000000497162500000000000000000000000004772892600000000000000000000497150000000000000000000000000004666743800000000000000000000497137500000000000000000000000004479094800000000000000000000497125000000000000000000000000004971729400000000000000000000497112500000000000000000000000004998059800000000000000000000497100000000000000000000000000004961651300000000000000000000497087500000000000000000000000004958320800000000000000000000497075000000000000000000000000004845515100000000000000000000497062500000000000000000000000004502842100000000000000000000497050000000000000000000000000005021627900000000000000000000497037500000000000000000000000005577612800000000000000000000497025000000000000000000000000005222846900000000000000000000497012500000000000000000000000004945473700000000000000000000497000000000000000000000,
    5148123100000000000000000000498587500000000000000000000000004755426400000000000000000000498575000000000000000000000000004428267300000000000000000000498562500000000000000000000000005025946000000000000000000000498550000000000000000000000000005412129700000000000000000000498537500000000000000000000000004922378800000000000000000000498525000000000000000000000000004628984000000000000000000000498512500000000000000000000000004877286100000000000000000000498500000000000000000000000000005130624000000000000000000000498487500000000000000000000000005066696600000000000000000000498475000000000000000000000000004697560400000000000000000000498462500000000000000000000000005128968100000000000000000000498450000000000000000000000000004902183300000000000000000000498437500000000000000000000000005285418000000000000000000000498425000000000000000000000000005164850600000000000000000000498412500000000000000000000000004864065600000000000000000000498400000000000000000000000000004726777200000000000000000000498387500000000000000000000000005131851300000000000000000000498375000000000000000000000000005310578400000000000000000000498362500000000000000000000000004903434700000000000000000000498350000000000000000000000000004874792400000000000000000000498337500000000000000000000000004764747100000000000000000000498325000000000000000000000000005057253000000000000000000000498312500000000000000000000000005066897200000000000000000000498300000000000000000000000000004645420100000000000000000000498287500000000000000000000000004787029300000000000000000000498275000000000000000000000000004854198600000000000000000000498262500000000000000000000000004859064400000000000000000000498250000000000000000000000000004784876800000000000000000000498237500000000000000000000000004858319500000000000000000000498225000000000000000000000000004516028700000000000000000000498212500000000000000000000000004440056700000000000000000000498200000000000000000000000000004962310000000000000000000000498187500000000000000000000000004542047100000000000000000000498175000000000000000000000000004893084200000000000000000000498162500000000000000000000000005080475700000000000000000000498150000000000000000000000000005003174600000000000000000000498137500000000000000000000000004657181300000000000000000000498125000000000000000000000000004964840300000000000000000000498112500000000000000000000000004921474700000000000000000000498100000000000000000000000000005062204800000000000000000000498087500000000000000000000000005020953700000000000000000000498075000000000000000000000000005239878100000000000000000000498062500000000000000000000000005302496600000000000000000000498050000000000000000000000000004780471900000000000000000000498037500000000000000000000000004793825200000000000000000000498025000000000000000000000000004956713900000000000000000000498012500000000000000000000000005176658200000000000000000000498000000000000000000000000000004792036400000000000000000000497987500000000000000000000000004774591900000000000000000000497975000000000000000000000000004973067800000000000000000000497962500000000000000000000000004958900300000000000000000000497950000000000000000000000000005096519000000000000000000000497937500000000000000000000000005129724900000000000000000000497925000000000000000000000000005339485800000000000000000000497912500000000000000000000000005057736700000000000000000000497900000000000000000000000000004669486800000000000000000000497887500000000000000000000000004616661000000000000000000000497875000000000000000000000000004935237900000000000000000000497862500000000000000000000000004786546000000000000000000000497850000000000000000000000000004613846400000000000000000000497837500000000000000000000000004807775000000000000000000000497825000000000000000000000000005354647300000000000000000000497812500000000000000000000000005071096700000000000000000000497800000000000000000000,
    4995692500000000000000000000499387500000000000000000000000005105895200000000000000000000499375000000000000000000000000004995737400000000000000000000499362500000000000000000000000004847359100000000000000000000499350000000000000000000000000004575226300000000000000000000499337500000000000000000000000004451087900000000000000000000499325000000000000000000000000005020550000000000000000000000499312500000000000000000000000005342208200000000000000000000499300000000000000000000000000005237379800000000000000000000499287500000000000000000000000005050925700000000000000000000499275000000000000000000000000004533541300000000000000000000499262500000000000000000000000004549116100000000000000000000499250000000000000000000000000005112160400000000000000000000499237500000000000000000000000005145360200000000000000000000499225000000000000000000000000004717239900000000000000000000499212500000000000000000000000004670135900000000000000000000499200000000000000000000000000004506117300000000000000000000499187500000000000000000000000004703495400000000000000000000499175000000000000000000000000004806493800000000000000000000499162500000000000000000000000005159618700000000000000000000499150000000000000000000000000005309031400000000000000000000499137500000000000000000000000004961148500000000000000000000499125000000000000000000000000004874067800000000000000000000499112500000000000000000000000004798595000000000000000000000499100000000000000000000000000004965834500000000000000000000499087500000000000000000000000005326641600000000000000000000499075000000000000000000000000005156617400000000000000000000499062500000000000000000000000005025035100000000000000000000499050000000000000000000000000004738765200000000000000000000499037500000000000000000000000004508219400000000000000000000499025000000000000000000000000005107653500000000000000000000499012500000000000000000000000005120294800000000000000000000499000000000000000000000000000004900229700000000000000000000498987500000000000000000000000004741185100000000000000000000498975000000000000000000000000005067373400000000000000000000498962500000000000000000000000005186115900000000000000000000498950000000000000000000000000005285453700000000000000000000498937500000000000000000000000005057666300000000000000000000498925000000000000000000000000004663646300000000000000000000498912500000000000000000000000004776323500000000000000000000498900000000000000000000000000005283650900000000000000000000498887500000000000000000000000005237175400000000000000000000498875000000000000000000000000005276942800000000000000000000498862500000000000000000000000005011813600000000000000000000498850000000000000000000000000004522463800000000000000000000498837500000000000000000000000004936846400000000000000000000498825000000000000000000000000005099029200000000000000000000498812500000000000000000000000004986285100000000000000000000498800000000000000000000000000004739483800000000000000000000498787500000000000000000000000004905583800000000000000000000498775000000000000000000000000004786892500000000000000000000498762500000000000000000000000004985161800000000000000000000498750000000000000000000000000004648089100000000000000000000498737500000000000000000000000004512674500000000000000000000498725000000000000000000000000004894802700000000000000000000498712500000000000000000000000004929532400000000000000000000498700000000000000000000000000004826509900000000000000000000498687500000000000000000000000005266384200000000000000000000498675000000000000000000000000005085193000000000000000000000498662500000000000000000000000004876733800000000000000000000498650000000000000000000000000004543833200000000000000000000498637500000000000000000000000004957690700000000000000000000498625000000000000000000000000005094405300000000000000000000498612500000000000000000000000005086727400000000000000000000498600000000000000000000,
    9706692400000000000000000000500000000000000000000000000000005916349600000000000000000000499987500000000000000000000000004801974500000000000000000000499975000000000000000000000000004695518000000000000000000000499962500000000000000000000000005042771100000000000000000000499950000000000000000000000000005206019500000000000000000000499937500000000000000000000000005371212400000000000000000000499925000000000000000000000000004917159100000000000000000000499912500000000000000000000000004475816100000000000000000000499900000000000000000000000000004975743900000000000000000000499887500000000000000000000000005476387100000000000000000000499875000000000000000000000000005032829400000000000000000000499862500000000000000000000000004760732000000000000000000000499850000000000000000000000000004927055600000000000000000000499837500000000000000000000000005361958400000000000000000000499825000000000000000000000000005339134000000000000000000000499812500000000000000000000000004828696000000000000000000000499800000000000000000000000000004758489100000000000000000000499787500000000000000000000000005042199500000000000000000000499775000000000000000000000000004887548500000000000000000000499762500000000000000000000000005096039800000000000000000000499750000000000000000000000000005186453500000000000000000000499737500000000000000000000000004856025100000000000000000000499725000000000000000000000000004695436100000000000000000000499712500000000000000000000000004802135900000000000000000000499700000000000000000000000000004615789600000000000000000000499687500000000000000000000000004855921400000000000000000000499675000000000000000000000000005104308000000000000000000000499662500000000000000000000000004987201800000000000000000000499650000000000000000000000000004854447300000000000000000000499637500000000000000000000000005208808500000000000000000000499625000000000000000000000000005286238100000000000000000000499612500000000000000000000000005202721900000000000000000000499600000000000000000000000000004718689200000000000000000000499587500000000000000000000000004617797400000000000000000000499575000000000000000000000000004881066500000000000000000000499562500000000000000000000000004738653100000000000000000000499550000000000000000000000000004786301300000000000000000000499537500000000000000000000000004889283600000000000000000000499525000000000000000000000000004747888000000000000000000000499512500000000000000000000000004752137300000000000000000000499500000000000000000000000000004494543900000000000000000000499487500000000000000000000000004634100600000000000000000000499475000000000000000000000000004944937800000000000000000000499462500000000000000000000000004927619000000000000000000000499450000000000000000000000000004826775100000000000000000000499437500000000000000000000000004860124700000000000000000000499425000000000000000000000000004831788300000000000000000000499412500000000000000000000000004530224200000000000000000000499400000000000000000000]
}
