/// Published tables of IMRPhenomD (arXiv:1508.07253 table V; ringdown frequencies of LALSimulation).
/// Generated once by tools/gen_tables.py; the spline equations are checked by tables_test.qnt.
module phenomd_tables {
  /// 19 phenomenological coefficients x 11 fit terms, fixed point
  pure val FIT_0 = List(393189798971966960000000000000000000000000000000000000, -1739575870681280500000000000000000000000000000000000000, 313237554589883500000000000000000000000000000000000000, 34396586092361377000000000000000000000000000000000000000, -121625658199819970000000000000000000000000000000000000000, -7069800600428853000000000000000000000000000000000000000, 138390717785970500000000000000000000000000000000000000000, -396627618909794460000000000000000000000000000000000000000, -6001752423652596000000000000000000000000000000000000000, 80351511818257350000000000000000000000000000000000000000, -209171036594165800000000000000000000000000000000000000000)
  pure val FIT_1 = List(-4010547653771657000000000000000000000000000000000000000, 11225301697067010000000000000000000000000000000000000000, 2356169606583616800000000000000000000000000000000000000, -347618069940335100000000000000000000000000000000000000000, 1137593670849482000000000000000000000000000000000000000000, 75431311271664540000000000000000000000000000000000000000, -1308476044625268000000000000000000000000000000000000000000, 3644458485392813400000000000000000000000000000000000000000, 59622661247228800000000000000000000000000000000000000000, -742779011435644050000000000000000000000000000000000000000, 1892897751404034300000000000000000000000000000000000000000)
  pure val FIT_2 = List(8320835471266537000000000000000000000000000000000000000, -19123772641459240000000000000000000000000000000000000000, -21091624547829920000000000000000000000000000000000000000, 871797508352568000000000000000000000000000000000000000000, -2691494242066955200000000000000000000000000000000000000000, -198898065273627220000000000000000000000000000000000000000, 3088802996015456300000000000000000000000000000000000000000, -8390870279256162000000000000000000000000000000000000000000, -145350319534464970000000000000000000000000000000000000000, 1706352899082216600000000000000000000000000000000000000000, -4274865973112091400000000000000000000000000000000000000000)
  pure val FIT_3 = List(81498387305077850000000000000000000000000000000000, 257475535174546580000000000000000000000000000000000, 116101980354967860000000000000000000000000000000000, -236277717855515370000000000000000000000000000000000, 677103870705757300000000000000000000000000000000000, 75707829386068340000000000000000000000000000000000, -272568968904324740000000000000000000000000000000000, 711403803971499650000000000000000000000000000000000, 17669341492934790000000000000000000000000000000000, -79786909831681830000000000000000000000000000000000, 211623915020051530000000000000000000000000000000000)
  pure val FIT_4 = List(692740273932834300000000000000000000000000000000, 3020474290328911000000000000000000000000000000000, 630802433770617100000000000000000000000000000000, -12074130661131138000000000000000000000000000000000, 26271598905781324000000000000000000000000000000000, 341517736471987940000000000000000000000000000000, -10779338611188374000000000000000000000000000000000, 27098966966891747000000000000000000000000000000000, 73741859385592830000000000000000000000000000000, -2749621038376281000000000000000000000000000000000, 7331507891357020000000000000000000000000000000000)
  pure val FIT_5 = List(101034440479947700000000000000000000000000000000000, 89931220072345480000000000000000000000000000000, 28394911680445900000000000000000000000000000000000, -404975296295800500000000000000000000000000000000000, 1320782817266536600000000000000000000000000000000000, 10396278486805426000000000000000000000000000000000, -702505915896194700000000000000000000000000000000000, 2478489237013047500000000000000000000000000000000000, 3093202475605892000000000000000000000000000000000, -269240238968516630000000000000000000000000000000000, 960937446468498300000000000000000000000000000000000)
  pure val FIT_6 = List(130816156070361060000000000000000000000000000000000, -553772969480767800000000000000000000000000000000, -6782917938621007000000000000000000000000000000000, -66898349707671170000000000000000000000000000000000, 340314796613408300000000000000000000000000000000000, -5296577374411866000000000000000000000000000000000, -99237932031113620000000000000000000000000000000000, 482068120840958700000000000000000000000000000000000, -613413987039371300000000000000000000000000000000, -38429253308696365000000000000000000000000000000000, 175617544219859840000000000000000000000000000000000)
  pure val FIT_7 = List(209655199929554300000000000000000000000000000000000000, 146374931682615530000000000000000000000000000000000000, 131254932860985220000000000000000000000000000000000000, 1830733001708211700000000000000000000000000000000000000, -4353414407461070000000000000000000000000000000000000000, -83328895435111140000000000000000000000000000000000000, 3204731997183187000000000000000000000000000000000000000, -10860945037520859000000000000000000000000000000000000000, 45225136398112204000000000000000000000000000000000000, 835343954639171400000000000000000000000000000000000000, -4453132500373220000000000000000000000000000000000000000)
  pure val FIT_8 = List(-1011405647262115600000000000000000000000000000000000000, -4463101109458185000000000000000000000000000000000000000, -654130876166872200000000000000000000000000000000000000, -26695923419307504000000000000000000000000000000000000000, 68632832293179840000000000000000000000000000000000000000, 340563721876796850000000000000000000000000000000000000, -43750772082090150000000000000000000000000000000000000000, 163181713073446970000000000000000000000000000000000000000, -746264856300764600000000000000000000000000000000000000, -11458525177153319000000000000000000000000000000000000000, 67440246890986760000000000000000000000000000000000000000)
  pure val FIT_9 = List(2293365827343649700000000000000000000000000000000000000, 23096000814979506000000000000000000000000000000000000000, 1496108397418369500000000000000000000000000000000000000, 119401813423181420000000000000000000000000000000000000000, -310422396930527640000000000000000000000000000000000000000, -303816661719925900000000000000000000000000000000000000, 187203228490935920000000000000000000000000000000000000000, -730914501208553900000000000000000000000000000000000000000, 4273822871475411000000000000000000000000000000000000000, 46750201861660100000000000000000000000000000000000000000, -306485349851249900000000000000000000000000000000000000000)
  pure val FIT_10 = List(-1462171522218357000000000000000000000000000000000000000, -37781285793871040000000000000000000000000000000000000000, -960868263150972600000000000000000000000000000000000000, -171089252572140560000000000000000000000000000000000000000, 433292460141652100000000000000000000000000000000000000000, -2236668326226652800000000000000000000000000000000000000, -250197163863774670000000000000000000000000000000000000000, 1027449590225954200000000000000000000000000000000000000000, -8536030079034246000000000000000000000000000000000000000, -57002534417375150000000000000000000000000000000000000000, 439684434684977700000000000000000000000000000000000000000)
  pure val FIT_11 = List(9789747327985583000000000000000000000000000000000000, -4265973087748922400000000000000000000000000000000000, 15348421037904913000000000000000000000000000000000000, -141706207607689540000000000000000000000000000000000000, 275286141436650270000000000000000000000000000000000000, 13874064695586490000000000000000000000000000000000000, -143365850751358810000000000000000000000000000000000000, 285774189524307580000000000000000000000000000000000000, 4102510946737612600000000000000000000000000000000000, -42368073797463900000000000000000000000000000000000000, 85035943356571730000000000000000000000000000000000000)
  pure val FIT_12 = List(-328270195875953400000000000000000000000000000000000, -905138446824586600000000000000000000000000000000000, -1241544974225804200000000000000000000000000000000000, 5547164477097870000000000000000000000000000000000000, -10605109938966335000000000000000000000000000000000000, -1195304455369065800000000000000000000000000000000000, 7680704618365418000000000000000000000000000000000000, -15533172948098394000000000000000000000000000000000000, -341292615923932630000000000000000000000000000000000, 2557237756995253600000000000000000000000000000000000, -5440803670774046500000000000000000000000000000000000)
  pure val FIT_13 = List(-2515642981879956500000000000000000000000000000, 1975025694220132700000000000000000000000000000, -1837067146929591500000000000000000000000000000, 2188631704131197300000000000000000000000000000, 8250240316860033000000000000000000000000000000, 715737125056670800000000000000000000000000000, -5578000011227068500000000000000000000000000000, 19142082884072178000000000000000000000000000000, 544716626146421700000000000000000000000000000, -3220610095021982000000000000000000000000000000, 7974016714984341000000000000000000000000000000)
  pure val FIT_14 = List(4331514709695348000000000000000000000000000000000000, 63863326791880810000000000000000000000000000000000000, -3285768747216059000000000000000000000000000000000000, 241589382693703150000000000000000000000000000000000000, -576687516937917700000000000000000000000000000000000000, -6185459307173841000000000000000000000000000000000000, 295396776245994800000000000000000000000000000000000000, -898629057591497000000000000000000000000000000000000000, -2157143577976204400000000000000000000000000000000000, 98121582246734280000000000000000000000000000000000000, -323956648959302860000000000000000000000000000000000000)
  pure val FIT_15 = List(-7020209449091723000000000000000000000000000000000, -16269798450687084000000000000000000000000000000000, -18725146851854990000000000000000000000000000000000, 113831365044994500000000000000000000000000000000000, -283341963044300460000000000000000000000000000000000, -17137955686840617000000000000000000000000000000000, 171975493381195270000000000000000000000000000000000, -453971714826127200000000000000000000000000000000000, -4998343735754870500000000000000000000000000000000, 60620720559483090000000000000000000000000000000000, -168276961664454600000000000000000000000000000000000)
  pure val FIT_16 = List(959880723834790000000000000000000000000000000000000, -39705438595557433000000000000000000000000000000000000, 1620212618951781300000000000000000000000000000000000, -157482869867170370000000000000000000000000000000000000, 360034108438310930000000000000000000000000000000000000, 2709242965907546700000000000000000000000000000000000, -178648235731513900000000000000000000000000000000000000, 515291937866651100000000000000000000000000000000000000, 1117571013003389500000000000000000000000000000000000, -57779994231774810000000000000000000000000000000000000, 180873076293204300000000000000000000000000000000000000)
  pure val FIT_17 = List(-2989487384493607000000000000000000000000000000000, 140221064485837380000000000000000000000000000000000, -7356049468633846000000000000000000000000000000000, 83370065422786610000000000000000000000000000000000, 22400082823973910000000000000000000000000000000000, -5520287000117722600000000000000000000000000000000, 56671863436065780000000000000000000000000000000000, 71869319733805030000000000000000000000000000000000, -1550743735432574300000000000000000000000000000000, 15750322779277187000000000000000000000000000000000, 21076815715176228000000000000000000000000000000000)
  pure val FIT_18 = List(99744082783630990000000000000000000000000000000000, -788444971490720300000000000000000000000000000000, -5904690119559103500000000000000000000000000000000, 139587123967640880000000000000000000000000000000000, -451663160167627600000000000000000000000000000000000, -5585343136869692000000000000000000000000000000000, 175165800393436030000000000000000000000000000000000, -599020896534780400000000000000000000000000000000000, -1794533652216119500000000000000000000000000000000, 59650977948259920000000000000000000000000000000000, -206088793679718040000000000000000000000000000000000)
  pure val FIT = List(FIT_0, FIT_1, FIT_2, FIT_3, FIT_4, FIT_5, FIT_6, FIT_7, FIT_8, FIT_9, FIT_10, FIT_11, FIT_12, FIT_13, FIT_14, FIT_15, FIT_16, FIT_17, FIT_18)
  /// a row of n numbers packed as base 10^60 digits (least significant first, offset 5e59)
  pure def unpack(n: int, v: int): List[int] =
    range(0, n).foldl((v, List()), (a, _k) => (a._1 / 10^60, a._2.append(a._1 % 10^60 - 5 * 10^59)))._2
  /// knots (final spin), ringdown and damping frequency, and spline second derivatives, in rows of 118
  pure val QA_0 = unpack(118, 499999999923200000000000000000000000000000000000000000000000499999999923000000000000000000000000000000000000000000000000499999999922800000000000000000000000000000000000000000000000499999999922600000000000000000000000000000000000000000000000499999999922400000000000000000000000000000000000000000000000499999999922200000000000000000000000000000000000000000000000499999999922000000000000000000000000000000000000000000000000499999999921800000000000000000000000000000000000000000000000499999999921600000000000000000000000000000000000000000000000499999999921400000000000000000000000000000000000000000000000499999999921200000000000000000000000000000000000000000000000499999999921000000000000000000000000000000000000000000000000499999999920800000000000000000000000000000000000000000000000499999999920600000000000000000000000000000000000000000000000499999999920400000000000000000000000000000000000000000000000499999999920200000000000000000000000000000000000000000000000499999999920000000000000000000000000000000000000000000000000499999999919800000000000000000000000000000000000000000000000499999999919600000000000000000000000000000000000000000000000499999999919400000000000000000000000000000000000000000000000499999999919200000000000000000000000000000000000000000000000499999999919000000000000000000000000000000000000000000000000499999999918800000000000000000000000000000000000000000000000499999999918600000000000000000000000000000000000000000000000499999999918400000000000000000000000000000000000000000000000499999999918200000000000000000000000000000000000000000000000499999999918000000000000000000000000000000000000000000000000499999999917800000000000000000000000000000000000000000000000499999999917600000000000000000000000000000000000000000000000499999999917400000000000000000000000000000000000000000000000499999999917200000000000000000000000000000000000000000000000499999999917000000000000000000000000000000000000000000000000499999999916800000000000000000000000000000000000000000000000499999999916600000000000000000000000000000000000000000000000499999999916400000000000000000000000000000000000000000000000499999999916200000000000000000000000000000000000000000000000499999999916000000000000000000000000000000000000000000000000499999999915800000000000000000000000000000000000000000000000499999999915600000000000000000000000000000000000000000000000499999999915400000000000000000000000000000000000000000000000499999999915200000000000000000000000000000000000000000000000499999999915000000000000000000000000000000000000000000000000499999999914800000000000000000000000000000000000000000000000499999999914600000000000000000000000000000000000000000000000499999999914400000000000000000000000000000000000000000000000499999999914200000000000000000000000000000000000000000000000499999999914000000000000000000000000000000000000000000000000499999999913800000000000000000000000000000000000000000000000499999999913600000000000000000000000000000000000000000000000499999999913400000000000000000000000000000000000000000000000499999999913200000000000000000000000000000000000000000000000499999999913000000000000000000000000000000000000000000000000499999999912800000000000000000000000000000000000000000000000499999999912600000000000000000000000000000000000000000000000499999999912400000000000000000000000000000000000000000000000499999999912200000000000000000000000000000000000000000000000499999999912000000000000000000000000000000000000000000000000499999999911800000000000000000000000000000000000000000000000499999999911600000000000000000000000000000000000000000000000499999999911400000000000000000000000000000000000000000000000499999999911200000000000000000000000000000000000000000000000499999999911000000000000000000000000000000000000000000000000499999999910800000000000000000000000000000000000000000000000499999999910600000000000000000000000000000000000000000000000499999999910400000000000000000000000000000000000000000000000499999999910200000000000000000000000000000000000000000000000499999999910000000000000000000000000000000000000000000000000499999999909800000000000000000000000000000000000000000000000499999999909600000000000000000000000000000000000000000000000499999999909400000000000000000000000000000000000000000000000499999999909200000000000000000000000000000000000000000000000499999999909000000000000000000000000000000000000000000000000499999999908800000000000000000000000000000000000000000000000499999999908600000000000000000000000000000000000000000000000499999999908400000000000000000000000000000000000000000000000499999999908200000000000000000000000000000000000000000000000499999999908000000000000000000000000000000000000000000000000499999999907800000000000000000000000000000000000000000000000499999999907600000000000000000000000000000000000000000000000499999999907400000000000000000000000000000000000000000000000499999999907200000000000000000000000000000000000000000000000499999999907000000000000000000000000000000000000000000000000499999999906800000000000000000000000000000000000000000000000499999999906600000000000000000000000000000000000000000000000499999999906400000000000000000000000000000000000000000000000499999999906200000000000000000000000000000000000000000000000499999999906000000000000000000000000000000000000000000000000499999999905800000000000000000000000000000000000000000000000499999999905600000000000000000000000000000000000000000000000499999999905400000000000000000000000000000000000000000000000499999999905200000000000000000000000000000000000000000000000499999999905000000000000000000000000000000000000000000000000499999999904800000000000000000000000000000000000000000000000499999999904600000000000000000000000000000000000000000000000499999999904400000000000000000000000000000000000000000000000499999999904200000000000000000000000000000000000000000000000499999999904000000000000000000000000000000000000000000000000499999999903800000000000000000000000000000000000000000000000499999999903600000000000000000000000000000000000000000000000499999999903400000000000000000000000000000000000000000000000499999999903200000000000000000000000000000000000000000000000499999999903000000000000000000000000000000000000000000000000499999999902800000000000000000000000000000000000000000000000499999999902600000000000000000000000000000000000000000000000499999999902400000000000000000000000000000000000000000000000499999999902200000000000000000000000000000000000000000000000499999999902000000000000000000000000000000000000000000000000499999999901800000000000000000000000000000000000000000000000499999999901600000000000000000000000000000000000000000000000499999999901400000000000000000000000000000000000000000000000499999999901200000000000000000000000000000000000000000000000499999999901000000000000000000000000000000000000000000000000499999999900800000000000000000000000000000000000000000000000499999999900600000000000000000000000000000000000000000000000499999999900400000000000000000000000000000000000000000000000499999999900200000000000000000000000000000000000000000000000499999999900100000000000000000000000000000000000000000000000499999999900000000000000000000000000000000000000000000000000)
  pure val QA_1 = unpack(118, 499999999946800000000000000000000000000000000000000000000000499999999946600000000000000000000000000000000000000000000000499999999946400000000000000000000000000000000000000000000000499999999946200000000000000000000000000000000000000000000000499999999946000000000000000000000000000000000000000000000000499999999945800000000000000000000000000000000000000000000000499999999945600000000000000000000000000000000000000000000000499999999945400000000000000000000000000000000000000000000000499999999945200000000000000000000000000000000000000000000000499999999945000000000000000000000000000000000000000000000000499999999944800000000000000000000000000000000000000000000000499999999944600000000000000000000000000000000000000000000000499999999944400000000000000000000000000000000000000000000000499999999944200000000000000000000000000000000000000000000000499999999944000000000000000000000000000000000000000000000000499999999943800000000000000000000000000000000000000000000000499999999943600000000000000000000000000000000000000000000000499999999943400000000000000000000000000000000000000000000000499999999943200000000000000000000000000000000000000000000000499999999943000000000000000000000000000000000000000000000000499999999942800000000000000000000000000000000000000000000000499999999942600000000000000000000000000000000000000000000000499999999942400000000000000000000000000000000000000000000000499999999942200000000000000000000000000000000000000000000000499999999942000000000000000000000000000000000000000000000000499999999941800000000000000000000000000000000000000000000000499999999941600000000000000000000000000000000000000000000000499999999941400000000000000000000000000000000000000000000000499999999941200000000000000000000000000000000000000000000000499999999941000000000000000000000000000000000000000000000000499999999940800000000000000000000000000000000000000000000000499999999940600000000000000000000000000000000000000000000000499999999940400000000000000000000000000000000000000000000000499999999940200000000000000000000000000000000000000000000000499999999940000000000000000000000000000000000000000000000000499999999939800000000000000000000000000000000000000000000000499999999939600000000000000000000000000000000000000000000000499999999939400000000000000000000000000000000000000000000000499999999939200000000000000000000000000000000000000000000000499999999939000000000000000000000000000000000000000000000000499999999938800000000000000000000000000000000000000000000000499999999938600000000000000000000000000000000000000000000000499999999938400000000000000000000000000000000000000000000000499999999938200000000000000000000000000000000000000000000000499999999938000000000000000000000000000000000000000000000000499999999937800000000000000000000000000000000000000000000000499999999937600000000000000000000000000000000000000000000000499999999937400000000000000000000000000000000000000000000000499999999937200000000000000000000000000000000000000000000000499999999937000000000000000000000000000000000000000000000000499999999936800000000000000000000000000000000000000000000000499999999936600000000000000000000000000000000000000000000000499999999936400000000000000000000000000000000000000000000000499999999936200000000000000000000000000000000000000000000000499999999936000000000000000000000000000000000000000000000000499999999935800000000000000000000000000000000000000000000000499999999935600000000000000000000000000000000000000000000000499999999935400000000000000000000000000000000000000000000000499999999935200000000000000000000000000000000000000000000000499999999935000000000000000000000000000000000000000000000000499999999934800000000000000000000000000000000000000000000000499999999934600000000000000000000000000000000000000000000000499999999934400000000000000000000000000000000000000000000000499999999934200000000000000000000000000000000000000000000000499999999934000000000000000000000000000000000000000000000000499999999933800000000000000000000000000000000000000000000000499999999933600000000000000000000000000000000000000000000000499999999933400000000000000000000000000000000000000000000000499999999933200000000000000000000000000000000000000000000000499999999933000000000000000000000000000000000000000000000000499999999932800000000000000000000000000000000000000000000000499999999932600000000000000000000000000000000000000000000000499999999932400000000000000000000000000000000000000000000000499999999932200000000000000000000000000000000000000000000000499999999932000000000000000000000000000000000000000000000000499999999931800000000000000000000000000000000000000000000000499999999931600000000000000000000000000000000000000000000000499999999931400000000000000000000000000000000000000000000000499999999931200000000000000000000000000000000000000000000000499999999931000000000000000000000000000000000000000000000000499999999930800000000000000000000000000000000000000000000000499999999930600000000000000000000000000000000000000000000000499999999930400000000000000000000000000000000000000000000000499999999930200000000000000000000000000000000000000000000000499999999930000000000000000000000000000000000000000000000000499999999929800000000000000000000000000000000000000000000000499999999929600000000000000000000000000000000000000000000000499999999929400000000000000000000000000000000000000000000000499999999929200000000000000000000000000000000000000000000000499999999929000000000000000000000000000000000000000000000000499999999928800000000000000000000000000000000000000000000000499999999928600000000000000000000000000000000000000000000000499999999928400000000000000000000000000000000000000000000000499999999928200000000000000000000000000000000000000000000000499999999928000000000000000000000000000000000000000000000000499999999927800000000000000000000000000000000000000000000000499999999927600000000000000000000000000000000000000000000000499999999927400000000000000000000000000000000000000000000000499999999927200000000000000000000000000000000000000000000000499999999927000000000000000000000000000000000000000000000000499999999926800000000000000000000000000000000000000000000000499999999926600000000000000000000000000000000000000000000000499999999926400000000000000000000000000000000000000000000000499999999926200000000000000000000000000000000000000000000000499999999926000000000000000000000000000000000000000000000000499999999925800000000000000000000000000000000000000000000000499999999925600000000000000000000000000000000000000000000000499999999925400000000000000000000000000000000000000000000000499999999925200000000000000000000000000000000000000000000000499999999925000000000000000000000000000000000000000000000000499999999924800000000000000000000000000000000000000000000000499999999924600000000000000000000000000000000000000000000000499999999924400000000000000000000000000000000000000000000000499999999924200000000000000000000000000000000000000000000000499999999924000000000000000000000000000000000000000000000000499999999923800000000000000000000000000000000000000000000000499999999923600000000000000000000000000000000000000000000000499999999923400000000000000000000000000000000000000000000000)
  pure val QA_2 = unpack(118, 499999999970400000000000000000000000000000000000000000000000499999999970200000000000000000000000000000000000000000000000499999999970000000000000000000000000000000000000000000000000499999999969800000000000000000000000000000000000000000000000499999999969600000000000000000000000000000000000000000000000499999999969400000000000000000000000000000000000000000000000499999999969200000000000000000000000000000000000000000000000499999999969000000000000000000000000000000000000000000000000499999999968800000000000000000000000000000000000000000000000499999999968600000000000000000000000000000000000000000000000499999999968400000000000000000000000000000000000000000000000499999999968200000000000000000000000000000000000000000000000499999999968000000000000000000000000000000000000000000000000499999999967800000000000000000000000000000000000000000000000499999999967600000000000000000000000000000000000000000000000499999999967400000000000000000000000000000000000000000000000499999999967200000000000000000000000000000000000000000000000499999999967000000000000000000000000000000000000000000000000499999999966800000000000000000000000000000000000000000000000499999999966600000000000000000000000000000000000000000000000499999999966400000000000000000000000000000000000000000000000499999999966200000000000000000000000000000000000000000000000499999999966000000000000000000000000000000000000000000000000499999999965800000000000000000000000000000000000000000000000499999999965600000000000000000000000000000000000000000000000499999999965400000000000000000000000000000000000000000000000499999999965200000000000000000000000000000000000000000000000499999999965000000000000000000000000000000000000000000000000499999999964800000000000000000000000000000000000000000000000499999999964600000000000000000000000000000000000000000000000499999999964400000000000000000000000000000000000000000000000499999999964200000000000000000000000000000000000000000000000499999999964000000000000000000000000000000000000000000000000499999999963800000000000000000000000000000000000000000000000499999999963600000000000000000000000000000000000000000000000499999999963400000000000000000000000000000000000000000000000499999999963200000000000000000000000000000000000000000000000499999999963000000000000000000000000000000000000000000000000499999999962800000000000000000000000000000000000000000000000499999999962600000000000000000000000000000000000000000000000499999999962400000000000000000000000000000000000000000000000499999999962200000000000000000000000000000000000000000000000499999999962000000000000000000000000000000000000000000000000499999999961800000000000000000000000000000000000000000000000499999999961600000000000000000000000000000000000000000000000499999999961400000000000000000000000000000000000000000000000499999999961200000000000000000000000000000000000000000000000499999999961000000000000000000000000000000000000000000000000499999999960800000000000000000000000000000000000000000000000499999999960600000000000000000000000000000000000000000000000499999999960400000000000000000000000000000000000000000000000499999999960200000000000000000000000000000000000000000000000499999999960000000000000000000000000000000000000000000000000499999999959800000000000000000000000000000000000000000000000499999999959600000000000000000000000000000000000000000000000499999999959400000000000000000000000000000000000000000000000499999999959200000000000000000000000000000000000000000000000499999999959000000000000000000000000000000000000000000000000499999999958800000000000000000000000000000000000000000000000499999999958600000000000000000000000000000000000000000000000499999999958400000000000000000000000000000000000000000000000499999999958200000000000000000000000000000000000000000000000499999999958000000000000000000000000000000000000000000000000499999999957800000000000000000000000000000000000000000000000499999999957600000000000000000000000000000000000000000000000499999999957400000000000000000000000000000000000000000000000499999999957200000000000000000000000000000000000000000000000499999999957000000000000000000000000000000000000000000000000499999999956800000000000000000000000000000000000000000000000499999999956600000000000000000000000000000000000000000000000499999999956400000000000000000000000000000000000000000000000499999999956200000000000000000000000000000000000000000000000499999999956000000000000000000000000000000000000000000000000499999999955800000000000000000000000000000000000000000000000499999999955600000000000000000000000000000000000000000000000499999999955400000000000000000000000000000000000000000000000499999999955200000000000000000000000000000000000000000000000499999999955000000000000000000000000000000000000000000000000499999999954800000000000000000000000000000000000000000000000499999999954600000000000000000000000000000000000000000000000499999999954400000000000000000000000000000000000000000000000499999999954200000000000000000000000000000000000000000000000499999999954000000000000000000000000000000000000000000000000499999999953800000000000000000000000000000000000000000000000499999999953600000000000000000000000000000000000000000000000499999999953400000000000000000000000000000000000000000000000499999999953200000000000000000000000000000000000000000000000499999999953000000000000000000000000000000000000000000000000499999999952800000000000000000000000000000000000000000000000499999999952600000000000000000000000000000000000000000000000499999999952400000000000000000000000000000000000000000000000499999999952200000000000000000000000000000000000000000000000499999999952000000000000000000000000000000000000000000000000499999999951800000000000000000000000000000000000000000000000499999999951600000000000000000000000000000000000000000000000499999999951400000000000000000000000000000000000000000000000499999999951200000000000000000000000000000000000000000000000499999999951000000000000000000000000000000000000000000000000499999999950800000000000000000000000000000000000000000000000499999999950600000000000000000000000000000000000000000000000499999999950400000000000000000000000000000000000000000000000499999999950200000000000000000000000000000000000000000000000499999999950000000000000000000000000000000000000000000000000499999999949800000000000000000000000000000000000000000000000499999999949600000000000000000000000000000000000000000000000499999999949400000000000000000000000000000000000000000000000499999999949200000000000000000000000000000000000000000000000499999999949000000000000000000000000000000000000000000000000499999999948800000000000000000000000000000000000000000000000499999999948600000000000000000000000000000000000000000000000499999999948400000000000000000000000000000000000000000000000499999999948200000000000000000000000000000000000000000000000499999999948000000000000000000000000000000000000000000000000499999999947800000000000000000000000000000000000000000000000499999999947600000000000000000000000000000000000000000000000499999999947400000000000000000000000000000000000000000000000499999999947200000000000000000000000000000000000000000000000499999999947000000000000000000000000000000000000000000000000)
  pure val QA_3 = unpack(118, 499999999994000000000000000000000000000000000000000000000000499999999993800000000000000000000000000000000000000000000000499999999993600000000000000000000000000000000000000000000000499999999993400000000000000000000000000000000000000000000000499999999993200000000000000000000000000000000000000000000000499999999993000000000000000000000000000000000000000000000000499999999992800000000000000000000000000000000000000000000000499999999992600000000000000000000000000000000000000000000000499999999992400000000000000000000000000000000000000000000000499999999992200000000000000000000000000000000000000000000000499999999992000000000000000000000000000000000000000000000000499999999991800000000000000000000000000000000000000000000000499999999991600000000000000000000000000000000000000000000000499999999991400000000000000000000000000000000000000000000000499999999991200000000000000000000000000000000000000000000000499999999991000000000000000000000000000000000000000000000000499999999990800000000000000000000000000000000000000000000000499999999990600000000000000000000000000000000000000000000000499999999990400000000000000000000000000000000000000000000000499999999990200000000000000000000000000000000000000000000000499999999990000000000000000000000000000000000000000000000000499999999989800000000000000000000000000000000000000000000000499999999989600000000000000000000000000000000000000000000000499999999989400000000000000000000000000000000000000000000000499999999989200000000000000000000000000000000000000000000000499999999989000000000000000000000000000000000000000000000000499999999988800000000000000000000000000000000000000000000000499999999988600000000000000000000000000000000000000000000000499999999988400000000000000000000000000000000000000000000000499999999988200000000000000000000000000000000000000000000000499999999988000000000000000000000000000000000000000000000000499999999987800000000000000000000000000000000000000000000000499999999987600000000000000000000000000000000000000000000000499999999987400000000000000000000000000000000000000000000000499999999987200000000000000000000000000000000000000000000000499999999987000000000000000000000000000000000000000000000000499999999986800000000000000000000000000000000000000000000000499999999986600000000000000000000000000000000000000000000000499999999986400000000000000000000000000000000000000000000000499999999986200000000000000000000000000000000000000000000000499999999986000000000000000000000000000000000000000000000000499999999985800000000000000000000000000000000000000000000000499999999985600000000000000000000000000000000000000000000000499999999985400000000000000000000000000000000000000000000000499999999985200000000000000000000000000000000000000000000000499999999985000000000000000000000000000000000000000000000000499999999984800000000000000000000000000000000000000000000000499999999984600000000000000000000000000000000000000000000000499999999984400000000000000000000000000000000000000000000000499999999984200000000000000000000000000000000000000000000000499999999984000000000000000000000000000000000000000000000000499999999983800000000000000000000000000000000000000000000000499999999983600000000000000000000000000000000000000000000000499999999983400000000000000000000000000000000000000000000000499999999983200000000000000000000000000000000000000000000000499999999983000000000000000000000000000000000000000000000000499999999982800000000000000000000000000000000000000000000000499999999982600000000000000000000000000000000000000000000000499999999982400000000000000000000000000000000000000000000000499999999982200000000000000000000000000000000000000000000000499999999982000000000000000000000000000000000000000000000000499999999981800000000000000000000000000000000000000000000000499999999981600000000000000000000000000000000000000000000000499999999981400000000000000000000000000000000000000000000000499999999981200000000000000000000000000000000000000000000000499999999981000000000000000000000000000000000000000000000000499999999980800000000000000000000000000000000000000000000000499999999980600000000000000000000000000000000000000000000000499999999980400000000000000000000000000000000000000000000000499999999980200000000000000000000000000000000000000000000000499999999980000000000000000000000000000000000000000000000000499999999979800000000000000000000000000000000000000000000000499999999979600000000000000000000000000000000000000000000000499999999979400000000000000000000000000000000000000000000000499999999979200000000000000000000000000000000000000000000000499999999979000000000000000000000000000000000000000000000000499999999978800000000000000000000000000000000000000000000000499999999978600000000000000000000000000000000000000000000000499999999978400000000000000000000000000000000000000000000000499999999978200000000000000000000000000000000000000000000000499999999978000000000000000000000000000000000000000000000000499999999977800000000000000000000000000000000000000000000000499999999977600000000000000000000000000000000000000000000000499999999977400000000000000000000000000000000000000000000000499999999977200000000000000000000000000000000000000000000000499999999977000000000000000000000000000000000000000000000000499999999976800000000000000000000000000000000000000000000000499999999976600000000000000000000000000000000000000000000000499999999976400000000000000000000000000000000000000000000000499999999976200000000000000000000000000000000000000000000000499999999976000000000000000000000000000000000000000000000000499999999975800000000000000000000000000000000000000000000000499999999975600000000000000000000000000000000000000000000000499999999975400000000000000000000000000000000000000000000000499999999975200000000000000000000000000000000000000000000000499999999975000000000000000000000000000000000000000000000000499999999974800000000000000000000000000000000000000000000000499999999974600000000000000000000000000000000000000000000000499999999974400000000000000000000000000000000000000000000000499999999974200000000000000000000000000000000000000000000000499999999974000000000000000000000000000000000000000000000000499999999973800000000000000000000000000000000000000000000000499999999973600000000000000000000000000000000000000000000000499999999973400000000000000000000000000000000000000000000000499999999973200000000000000000000000000000000000000000000000499999999973000000000000000000000000000000000000000000000000499999999972800000000000000000000000000000000000000000000000499999999972600000000000000000000000000000000000000000000000499999999972400000000000000000000000000000000000000000000000499999999972200000000000000000000000000000000000000000000000499999999972000000000000000000000000000000000000000000000000499999999971800000000000000000000000000000000000000000000000499999999971600000000000000000000000000000000000000000000000499999999971400000000000000000000000000000000000000000000000499999999971200000000000000000000000000000000000000000000000499999999971000000000000000000000000000000000000000000000000499999999970800000000000000000000000000000000000000000000000499999999970600000000000000000000000000000000000000000000000)
  pure val QA_4 = unpack(118, 500000000017600000000000000000000000000000000000000000000000500000000017400000000000000000000000000000000000000000000000500000000017200000000000000000000000000000000000000000000000500000000017000000000000000000000000000000000000000000000000500000000016800000000000000000000000000000000000000000000000500000000016600000000000000000000000000000000000000000000000500000000016400000000000000000000000000000000000000000000000500000000016200000000000000000000000000000000000000000000000500000000016000000000000000000000000000000000000000000000000500000000015800000000000000000000000000000000000000000000000500000000015600000000000000000000000000000000000000000000000500000000015400000000000000000000000000000000000000000000000500000000015200000000000000000000000000000000000000000000000500000000015000000000000000000000000000000000000000000000000500000000014800000000000000000000000000000000000000000000000500000000014600000000000000000000000000000000000000000000000500000000014400000000000000000000000000000000000000000000000500000000014200000000000000000000000000000000000000000000000500000000014000000000000000000000000000000000000000000000000500000000013800000000000000000000000000000000000000000000000500000000013600000000000000000000000000000000000000000000000500000000013400000000000000000000000000000000000000000000000500000000013200000000000000000000000000000000000000000000000500000000013000000000000000000000000000000000000000000000000500000000012800000000000000000000000000000000000000000000000500000000012600000000000000000000000000000000000000000000000500000000012400000000000000000000000000000000000000000000000500000000012200000000000000000000000000000000000000000000000500000000012000000000000000000000000000000000000000000000000500000000011800000000000000000000000000000000000000000000000500000000011600000000000000000000000000000000000000000000000500000000011400000000000000000000000000000000000000000000000500000000011200000000000000000000000000000000000000000000000500000000011000000000000000000000000000000000000000000000000500000000010800000000000000000000000000000000000000000000000500000000010600000000000000000000000000000000000000000000000500000000010400000000000000000000000000000000000000000000000500000000010200000000000000000000000000000000000000000000000500000000010000000000000000000000000000000000000000000000000500000000009800000000000000000000000000000000000000000000000500000000009600000000000000000000000000000000000000000000000500000000009400000000000000000000000000000000000000000000000500000000009200000000000000000000000000000000000000000000000500000000009000000000000000000000000000000000000000000000000500000000008800000000000000000000000000000000000000000000000500000000008600000000000000000000000000000000000000000000000500000000008400000000000000000000000000000000000000000000000500000000008200000000000000000000000000000000000000000000000500000000008000000000000000000000000000000000000000000000000500000000007800000000000000000000000000000000000000000000000500000000007600000000000000000000000000000000000000000000000500000000007400000000000000000000000000000000000000000000000500000000007200000000000000000000000000000000000000000000000500000000007000000000000000000000000000000000000000000000000500000000006800000000000000000000000000000000000000000000000500000000006600000000000000000000000000000000000000000000000500000000006400000000000000000000000000000000000000000000000500000000006200000000000000000000000000000000000000000000000500000000006000000000000000000000000000000000000000000000000500000000005800000000000000000000000000000000000000000000000500000000005600000000000000000000000000000000000000000000000500000000005400000000000000000000000000000000000000000000000500000000005200000000000000000000000000000000000000000000000500000000005000000000000000000000000000000000000000000000000500000000004800000000000000000000000000000000000000000000000500000000004600000000000000000000000000000000000000000000000500000000004400000000000000000000000000000000000000000000000500000000004200000000000000000000000000000000000000000000000500000000004000000000000000000000000000000000000000000000000500000000003800000000000000000000000000000000000000000000000500000000003600000000000000000000000000000000000000000000000500000000003400000000000000000000000000000000000000000000000500000000003200000000000000000000000000000000000000000000000500000000003000000000000000000000000000000000000000000000000500000000002800000000000000000000000000000000000000000000000500000000002600000000000000000000000000000000000000000000000500000000002400000000000000000000000000000000000000000000000500000000002200000000000000000000000000000000000000000000000500000000002000000000000000000000000000000000000000000000000500000000001800000000000000000000000000000000000000000000000500000000001600000000000000000000000000000000000000000000000500000000001400000000000000000000000000000000000000000000000500000000001200000000000000000000000000000000000000000000000500000000001000000000000000000000000000000000000000000000000500000000000800000000000000000000000000000000000000000000000500000000000600000000000000000000000000000000000000000000000500000000000400000000000000000000000000000000000000000000000500000000000200000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999999800000000000000000000000000000000000000000000000499999999999600000000000000000000000000000000000000000000000499999999999400000000000000000000000000000000000000000000000499999999999200000000000000000000000000000000000000000000000499999999999000000000000000000000000000000000000000000000000499999999998800000000000000000000000000000000000000000000000499999999998600000000000000000000000000000000000000000000000499999999998400000000000000000000000000000000000000000000000499999999998200000000000000000000000000000000000000000000000499999999998000000000000000000000000000000000000000000000000499999999997800000000000000000000000000000000000000000000000499999999997600000000000000000000000000000000000000000000000499999999997400000000000000000000000000000000000000000000000499999999997200000000000000000000000000000000000000000000000499999999997000000000000000000000000000000000000000000000000499999999996800000000000000000000000000000000000000000000000499999999996600000000000000000000000000000000000000000000000499999999996400000000000000000000000000000000000000000000000499999999996200000000000000000000000000000000000000000000000499999999996000000000000000000000000000000000000000000000000499999999995800000000000000000000000000000000000000000000000499999999995600000000000000000000000000000000000000000000000499999999995400000000000000000000000000000000000000000000000499999999995200000000000000000000000000000000000000000000000499999999995000000000000000000000000000000000000000000000000499999999994800000000000000000000000000000000000000000000000499999999994600000000000000000000000000000000000000000000000499999999994400000000000000000000000000000000000000000000000499999999994200000000000000000000000000000000000000000000000)
  pure val QA_5 = unpack(118, 500000000041200000000000000000000000000000000000000000000000500000000041000000000000000000000000000000000000000000000000500000000040800000000000000000000000000000000000000000000000500000000040600000000000000000000000000000000000000000000000500000000040400000000000000000000000000000000000000000000000500000000040200000000000000000000000000000000000000000000000500000000040000000000000000000000000000000000000000000000000500000000039800000000000000000000000000000000000000000000000500000000039600000000000000000000000000000000000000000000000500000000039400000000000000000000000000000000000000000000000500000000039200000000000000000000000000000000000000000000000500000000039000000000000000000000000000000000000000000000000500000000038800000000000000000000000000000000000000000000000500000000038600000000000000000000000000000000000000000000000500000000038400000000000000000000000000000000000000000000000500000000038200000000000000000000000000000000000000000000000500000000038000000000000000000000000000000000000000000000000500000000037800000000000000000000000000000000000000000000000500000000037600000000000000000000000000000000000000000000000500000000037400000000000000000000000000000000000000000000000500000000037200000000000000000000000000000000000000000000000500000000037000000000000000000000000000000000000000000000000500000000036800000000000000000000000000000000000000000000000500000000036600000000000000000000000000000000000000000000000500000000036400000000000000000000000000000000000000000000000500000000036200000000000000000000000000000000000000000000000500000000036000000000000000000000000000000000000000000000000500000000035800000000000000000000000000000000000000000000000500000000035600000000000000000000000000000000000000000000000500000000035400000000000000000000000000000000000000000000000500000000035200000000000000000000000000000000000000000000000500000000035000000000000000000000000000000000000000000000000500000000034800000000000000000000000000000000000000000000000500000000034600000000000000000000000000000000000000000000000500000000034400000000000000000000000000000000000000000000000500000000034200000000000000000000000000000000000000000000000500000000034000000000000000000000000000000000000000000000000500000000033800000000000000000000000000000000000000000000000500000000033600000000000000000000000000000000000000000000000500000000033400000000000000000000000000000000000000000000000500000000033200000000000000000000000000000000000000000000000500000000033000000000000000000000000000000000000000000000000500000000032800000000000000000000000000000000000000000000000500000000032600000000000000000000000000000000000000000000000500000000032400000000000000000000000000000000000000000000000500000000032200000000000000000000000000000000000000000000000500000000032000000000000000000000000000000000000000000000000500000000031800000000000000000000000000000000000000000000000500000000031600000000000000000000000000000000000000000000000500000000031400000000000000000000000000000000000000000000000500000000031200000000000000000000000000000000000000000000000500000000031000000000000000000000000000000000000000000000000500000000030800000000000000000000000000000000000000000000000500000000030600000000000000000000000000000000000000000000000500000000030400000000000000000000000000000000000000000000000500000000030200000000000000000000000000000000000000000000000500000000030000000000000000000000000000000000000000000000000500000000029800000000000000000000000000000000000000000000000500000000029600000000000000000000000000000000000000000000000500000000029400000000000000000000000000000000000000000000000500000000029200000000000000000000000000000000000000000000000500000000029000000000000000000000000000000000000000000000000500000000028800000000000000000000000000000000000000000000000500000000028600000000000000000000000000000000000000000000000500000000028400000000000000000000000000000000000000000000000500000000028200000000000000000000000000000000000000000000000500000000028000000000000000000000000000000000000000000000000500000000027800000000000000000000000000000000000000000000000500000000027600000000000000000000000000000000000000000000000500000000027400000000000000000000000000000000000000000000000500000000027200000000000000000000000000000000000000000000000500000000027000000000000000000000000000000000000000000000000500000000026800000000000000000000000000000000000000000000000500000000026600000000000000000000000000000000000000000000000500000000026400000000000000000000000000000000000000000000000500000000026200000000000000000000000000000000000000000000000500000000026000000000000000000000000000000000000000000000000500000000025800000000000000000000000000000000000000000000000500000000025600000000000000000000000000000000000000000000000500000000025400000000000000000000000000000000000000000000000500000000025200000000000000000000000000000000000000000000000500000000025000000000000000000000000000000000000000000000000500000000024800000000000000000000000000000000000000000000000500000000024600000000000000000000000000000000000000000000000500000000024400000000000000000000000000000000000000000000000500000000024200000000000000000000000000000000000000000000000500000000024000000000000000000000000000000000000000000000000500000000023800000000000000000000000000000000000000000000000500000000023600000000000000000000000000000000000000000000000500000000023400000000000000000000000000000000000000000000000500000000023200000000000000000000000000000000000000000000000500000000023000000000000000000000000000000000000000000000000500000000022800000000000000000000000000000000000000000000000500000000022600000000000000000000000000000000000000000000000500000000022400000000000000000000000000000000000000000000000500000000022200000000000000000000000000000000000000000000000500000000022000000000000000000000000000000000000000000000000500000000021800000000000000000000000000000000000000000000000500000000021600000000000000000000000000000000000000000000000500000000021400000000000000000000000000000000000000000000000500000000021200000000000000000000000000000000000000000000000500000000021000000000000000000000000000000000000000000000000500000000020800000000000000000000000000000000000000000000000500000000020600000000000000000000000000000000000000000000000500000000020400000000000000000000000000000000000000000000000500000000020200000000000000000000000000000000000000000000000500000000020000000000000000000000000000000000000000000000000500000000019800000000000000000000000000000000000000000000000500000000019600000000000000000000000000000000000000000000000500000000019400000000000000000000000000000000000000000000000500000000019200000000000000000000000000000000000000000000000500000000019000000000000000000000000000000000000000000000000500000000018800000000000000000000000000000000000000000000000500000000018600000000000000000000000000000000000000000000000500000000018400000000000000000000000000000000000000000000000500000000018200000000000000000000000000000000000000000000000500000000018000000000000000000000000000000000000000000000000500000000017800000000000000000000000000000000000000000000000)
  pure val QA_6 = unpack(118, 500000000064800000000000000000000000000000000000000000000000500000000064600000000000000000000000000000000000000000000000500000000064400000000000000000000000000000000000000000000000500000000064200000000000000000000000000000000000000000000000500000000064000000000000000000000000000000000000000000000000500000000063800000000000000000000000000000000000000000000000500000000063600000000000000000000000000000000000000000000000500000000063400000000000000000000000000000000000000000000000500000000063200000000000000000000000000000000000000000000000500000000063000000000000000000000000000000000000000000000000500000000062800000000000000000000000000000000000000000000000500000000062600000000000000000000000000000000000000000000000500000000062400000000000000000000000000000000000000000000000500000000062200000000000000000000000000000000000000000000000500000000062000000000000000000000000000000000000000000000000500000000061800000000000000000000000000000000000000000000000500000000061600000000000000000000000000000000000000000000000500000000061400000000000000000000000000000000000000000000000500000000061200000000000000000000000000000000000000000000000500000000061000000000000000000000000000000000000000000000000500000000060800000000000000000000000000000000000000000000000500000000060600000000000000000000000000000000000000000000000500000000060400000000000000000000000000000000000000000000000500000000060200000000000000000000000000000000000000000000000500000000060000000000000000000000000000000000000000000000000500000000059800000000000000000000000000000000000000000000000500000000059600000000000000000000000000000000000000000000000500000000059400000000000000000000000000000000000000000000000500000000059200000000000000000000000000000000000000000000000500000000059000000000000000000000000000000000000000000000000500000000058800000000000000000000000000000000000000000000000500000000058600000000000000000000000000000000000000000000000500000000058400000000000000000000000000000000000000000000000500000000058200000000000000000000000000000000000000000000000500000000058000000000000000000000000000000000000000000000000500000000057800000000000000000000000000000000000000000000000500000000057600000000000000000000000000000000000000000000000500000000057400000000000000000000000000000000000000000000000500000000057200000000000000000000000000000000000000000000000500000000057000000000000000000000000000000000000000000000000500000000056800000000000000000000000000000000000000000000000500000000056600000000000000000000000000000000000000000000000500000000056400000000000000000000000000000000000000000000000500000000056200000000000000000000000000000000000000000000000500000000056000000000000000000000000000000000000000000000000500000000055800000000000000000000000000000000000000000000000500000000055600000000000000000000000000000000000000000000000500000000055400000000000000000000000000000000000000000000000500000000055200000000000000000000000000000000000000000000000500000000055000000000000000000000000000000000000000000000000500000000054800000000000000000000000000000000000000000000000500000000054600000000000000000000000000000000000000000000000500000000054400000000000000000000000000000000000000000000000500000000054200000000000000000000000000000000000000000000000500000000054000000000000000000000000000000000000000000000000500000000053800000000000000000000000000000000000000000000000500000000053600000000000000000000000000000000000000000000000500000000053400000000000000000000000000000000000000000000000500000000053200000000000000000000000000000000000000000000000500000000053000000000000000000000000000000000000000000000000500000000052800000000000000000000000000000000000000000000000500000000052600000000000000000000000000000000000000000000000500000000052400000000000000000000000000000000000000000000000500000000052200000000000000000000000000000000000000000000000500000000052000000000000000000000000000000000000000000000000500000000051800000000000000000000000000000000000000000000000500000000051600000000000000000000000000000000000000000000000500000000051400000000000000000000000000000000000000000000000500000000051200000000000000000000000000000000000000000000000500000000051000000000000000000000000000000000000000000000000500000000050800000000000000000000000000000000000000000000000500000000050600000000000000000000000000000000000000000000000500000000050400000000000000000000000000000000000000000000000500000000050200000000000000000000000000000000000000000000000500000000050000000000000000000000000000000000000000000000000500000000049800000000000000000000000000000000000000000000000500000000049600000000000000000000000000000000000000000000000500000000049400000000000000000000000000000000000000000000000500000000049200000000000000000000000000000000000000000000000500000000049000000000000000000000000000000000000000000000000500000000048800000000000000000000000000000000000000000000000500000000048600000000000000000000000000000000000000000000000500000000048400000000000000000000000000000000000000000000000500000000048200000000000000000000000000000000000000000000000500000000048000000000000000000000000000000000000000000000000500000000047800000000000000000000000000000000000000000000000500000000047600000000000000000000000000000000000000000000000500000000047400000000000000000000000000000000000000000000000500000000047200000000000000000000000000000000000000000000000500000000047000000000000000000000000000000000000000000000000500000000046800000000000000000000000000000000000000000000000500000000046600000000000000000000000000000000000000000000000500000000046400000000000000000000000000000000000000000000000500000000046200000000000000000000000000000000000000000000000500000000046000000000000000000000000000000000000000000000000500000000045800000000000000000000000000000000000000000000000500000000045600000000000000000000000000000000000000000000000500000000045400000000000000000000000000000000000000000000000500000000045200000000000000000000000000000000000000000000000500000000045000000000000000000000000000000000000000000000000500000000044800000000000000000000000000000000000000000000000500000000044600000000000000000000000000000000000000000000000500000000044400000000000000000000000000000000000000000000000500000000044200000000000000000000000000000000000000000000000500000000044000000000000000000000000000000000000000000000000500000000043800000000000000000000000000000000000000000000000500000000043600000000000000000000000000000000000000000000000500000000043400000000000000000000000000000000000000000000000500000000043200000000000000000000000000000000000000000000000500000000043000000000000000000000000000000000000000000000000500000000042800000000000000000000000000000000000000000000000500000000042600000000000000000000000000000000000000000000000500000000042400000000000000000000000000000000000000000000000500000000042200000000000000000000000000000000000000000000000500000000042000000000000000000000000000000000000000000000000500000000041800000000000000000000000000000000000000000000000500000000041600000000000000000000000000000000000000000000000500000000041400000000000000000000000000000000000000000000000)
  pure val QA_7 = unpack(118, 500000000088400000000000000000000000000000000000000000000000500000000088200000000000000000000000000000000000000000000000500000000088000000000000000000000000000000000000000000000000500000000087800000000000000000000000000000000000000000000000500000000087600000000000000000000000000000000000000000000000500000000087400000000000000000000000000000000000000000000000500000000087200000000000000000000000000000000000000000000000500000000087000000000000000000000000000000000000000000000000500000000086800000000000000000000000000000000000000000000000500000000086600000000000000000000000000000000000000000000000500000000086400000000000000000000000000000000000000000000000500000000086200000000000000000000000000000000000000000000000500000000086000000000000000000000000000000000000000000000000500000000085800000000000000000000000000000000000000000000000500000000085600000000000000000000000000000000000000000000000500000000085400000000000000000000000000000000000000000000000500000000085200000000000000000000000000000000000000000000000500000000085000000000000000000000000000000000000000000000000500000000084800000000000000000000000000000000000000000000000500000000084600000000000000000000000000000000000000000000000500000000084400000000000000000000000000000000000000000000000500000000084200000000000000000000000000000000000000000000000500000000084000000000000000000000000000000000000000000000000500000000083800000000000000000000000000000000000000000000000500000000083600000000000000000000000000000000000000000000000500000000083400000000000000000000000000000000000000000000000500000000083200000000000000000000000000000000000000000000000500000000083000000000000000000000000000000000000000000000000500000000082800000000000000000000000000000000000000000000000500000000082600000000000000000000000000000000000000000000000500000000082400000000000000000000000000000000000000000000000500000000082200000000000000000000000000000000000000000000000500000000082000000000000000000000000000000000000000000000000500000000081800000000000000000000000000000000000000000000000500000000081600000000000000000000000000000000000000000000000500000000081400000000000000000000000000000000000000000000000500000000081200000000000000000000000000000000000000000000000500000000081000000000000000000000000000000000000000000000000500000000080800000000000000000000000000000000000000000000000500000000080600000000000000000000000000000000000000000000000500000000080400000000000000000000000000000000000000000000000500000000080200000000000000000000000000000000000000000000000500000000080000000000000000000000000000000000000000000000000500000000079800000000000000000000000000000000000000000000000500000000079600000000000000000000000000000000000000000000000500000000079400000000000000000000000000000000000000000000000500000000079200000000000000000000000000000000000000000000000500000000079000000000000000000000000000000000000000000000000500000000078800000000000000000000000000000000000000000000000500000000078600000000000000000000000000000000000000000000000500000000078400000000000000000000000000000000000000000000000500000000078200000000000000000000000000000000000000000000000500000000078000000000000000000000000000000000000000000000000500000000077800000000000000000000000000000000000000000000000500000000077600000000000000000000000000000000000000000000000500000000077400000000000000000000000000000000000000000000000500000000077200000000000000000000000000000000000000000000000500000000077000000000000000000000000000000000000000000000000500000000076800000000000000000000000000000000000000000000000500000000076600000000000000000000000000000000000000000000000500000000076400000000000000000000000000000000000000000000000500000000076200000000000000000000000000000000000000000000000500000000076000000000000000000000000000000000000000000000000500000000075800000000000000000000000000000000000000000000000500000000075600000000000000000000000000000000000000000000000500000000075400000000000000000000000000000000000000000000000500000000075200000000000000000000000000000000000000000000000500000000075000000000000000000000000000000000000000000000000500000000074800000000000000000000000000000000000000000000000500000000074600000000000000000000000000000000000000000000000500000000074400000000000000000000000000000000000000000000000500000000074200000000000000000000000000000000000000000000000500000000074000000000000000000000000000000000000000000000000500000000073800000000000000000000000000000000000000000000000500000000073600000000000000000000000000000000000000000000000500000000073400000000000000000000000000000000000000000000000500000000073200000000000000000000000000000000000000000000000500000000073000000000000000000000000000000000000000000000000500000000072800000000000000000000000000000000000000000000000500000000072600000000000000000000000000000000000000000000000500000000072400000000000000000000000000000000000000000000000500000000072200000000000000000000000000000000000000000000000500000000072000000000000000000000000000000000000000000000000500000000071800000000000000000000000000000000000000000000000500000000071600000000000000000000000000000000000000000000000500000000071400000000000000000000000000000000000000000000000500000000071200000000000000000000000000000000000000000000000500000000071000000000000000000000000000000000000000000000000500000000070800000000000000000000000000000000000000000000000500000000070600000000000000000000000000000000000000000000000500000000070400000000000000000000000000000000000000000000000500000000070200000000000000000000000000000000000000000000000500000000070000000000000000000000000000000000000000000000000500000000069800000000000000000000000000000000000000000000000500000000069600000000000000000000000000000000000000000000000500000000069400000000000000000000000000000000000000000000000500000000069200000000000000000000000000000000000000000000000500000000069000000000000000000000000000000000000000000000000500000000068800000000000000000000000000000000000000000000000500000000068600000000000000000000000000000000000000000000000500000000068400000000000000000000000000000000000000000000000500000000068200000000000000000000000000000000000000000000000500000000068000000000000000000000000000000000000000000000000500000000067800000000000000000000000000000000000000000000000500000000067600000000000000000000000000000000000000000000000500000000067400000000000000000000000000000000000000000000000500000000067200000000000000000000000000000000000000000000000500000000067000000000000000000000000000000000000000000000000500000000066800000000000000000000000000000000000000000000000500000000066600000000000000000000000000000000000000000000000500000000066400000000000000000000000000000000000000000000000500000000066200000000000000000000000000000000000000000000000500000000066000000000000000000000000000000000000000000000000500000000065800000000000000000000000000000000000000000000000500000000065600000000000000000000000000000000000000000000000500000000065400000000000000000000000000000000000000000000000500000000065200000000000000000000000000000000000000000000000500000000065000000000000000000000000000000000000000000000000)
  pure val QA_8 = unpack(59, 500000000100000000000000000000000000000000000000000000000000500000000099900000000000000000000000000000000000000000000000500000000099800000000000000000000000000000000000000000000000500000000099600000000000000000000000000000000000000000000000500000000099400000000000000000000000000000000000000000000000500000000099200000000000000000000000000000000000000000000000500000000099000000000000000000000000000000000000000000000000500000000098800000000000000000000000000000000000000000000000500000000098600000000000000000000000000000000000000000000000500000000098400000000000000000000000000000000000000000000000500000000098200000000000000000000000000000000000000000000000500000000098000000000000000000000000000000000000000000000000500000000097800000000000000000000000000000000000000000000000500000000097600000000000000000000000000000000000000000000000500000000097400000000000000000000000000000000000000000000000500000000097200000000000000000000000000000000000000000000000500000000097000000000000000000000000000000000000000000000000500000000096800000000000000000000000000000000000000000000000500000000096600000000000000000000000000000000000000000000000500000000096400000000000000000000000000000000000000000000000500000000096200000000000000000000000000000000000000000000000500000000096000000000000000000000000000000000000000000000000500000000095800000000000000000000000000000000000000000000000500000000095600000000000000000000000000000000000000000000000500000000095400000000000000000000000000000000000000000000000500000000095200000000000000000000000000000000000000000000000500000000095000000000000000000000000000000000000000000000000500000000094800000000000000000000000000000000000000000000000500000000094600000000000000000000000000000000000000000000000500000000094400000000000000000000000000000000000000000000000500000000094200000000000000000000000000000000000000000000000500000000094000000000000000000000000000000000000000000000000500000000093800000000000000000000000000000000000000000000000500000000093600000000000000000000000000000000000000000000000500000000093400000000000000000000000000000000000000000000000500000000093200000000000000000000000000000000000000000000000500000000093000000000000000000000000000000000000000000000000500000000092800000000000000000000000000000000000000000000000500000000092600000000000000000000000000000000000000000000000500000000092400000000000000000000000000000000000000000000000500000000092200000000000000000000000000000000000000000000000500000000092000000000000000000000000000000000000000000000000500000000091800000000000000000000000000000000000000000000000500000000091600000000000000000000000000000000000000000000000500000000091400000000000000000000000000000000000000000000000500000000091200000000000000000000000000000000000000000000000500000000091000000000000000000000000000000000000000000000000500000000090800000000000000000000000000000000000000000000000500000000090600000000000000000000000000000000000000000000000500000000090400000000000000000000000000000000000000000000000500000000090200000000000000000000000000000000000000000000000500000000090000000000000000000000000000000000000000000000000500000000089800000000000000000000000000000000000000000000000500000000089600000000000000000000000000000000000000000000000500000000089400000000000000000000000000000000000000000000000500000000089200000000000000000000000000000000000000000000000500000000089000000000000000000000000000000000000000000000000500000000088800000000000000000000000000000000000000000000000500000000088600000000000000000000000000000000000000000000000)
  pure val QA = List(QA_0, QA_1, QA_2, QA_3, QA_4, QA_5, QA_6, QA_7, QA_8)
  pure val QR_0 = unpack(118, 500000000004859680000000000000000000000000000000000000000000500000000004857640000000000000000000000000000000000000000000500000000004855610000000000000000000000000000000000000000000500000000004853570000000000000000000000000000000000000000000500000000004851540000000000000000000000000000000000000000000500000000004849510000000000000000000000000000000000000000000500000000004847490000000000000000000000000000000000000000000500000000004845470000000000000000000000000000000000000000000500000000004843450000000000000000000000000000000000000000000500000000004841430000000000000000000000000000000000000000000500000000004839410000000000000000000000000000000000000000000500000000004837400000000000000000000000000000000000000000000500000000004835390000000000000000000000000000000000000000000500000000004833390000000000000000000000000000000000000000000500000000004831380000000000000000000000000000000000000000000500000000004829380000000000000000000000000000000000000000000500000000004827380000000000000000000000000000000000000000000500000000004825390000000000000000000000000000000000000000000500000000004823390000000000000000000000000000000000000000000500000000004821400000000000000000000000000000000000000000000500000000004819420000000000000000000000000000000000000000000500000000004817430000000000000000000000000000000000000000000500000000004815450000000000000000000000000000000000000000000500000000004813470000000000000000000000000000000000000000000500000000004811490000000000000000000000000000000000000000000500000000004809520000000000000000000000000000000000000000000500000000004807550000000000000000000000000000000000000000000500000000004805580000000000000000000000000000000000000000000500000000004803610000000000000000000000000000000000000000000500000000004801650000000000000000000000000000000000000000000500000000004799690000000000000000000000000000000000000000000500000000004797730000000000000000000000000000000000000000000500000000004795770000000000000000000000000000000000000000000500000000004793820000000000000000000000000000000000000000000500000000004791870000000000000000000000000000000000000000000500000000004789920000000000000000000000000000000000000000000500000000004787980000000000000000000000000000000000000000000500000000004786030000000000000000000000000000000000000000000500000000004784090000000000000000000000000000000000000000000500000000004782160000000000000000000000000000000000000000000500000000004780220000000000000000000000000000000000000000000500000000004778290000000000000000000000000000000000000000000500000000004776360000000000000000000000000000000000000000000500000000004774430000000000000000000000000000000000000000000500000000004772510000000000000000000000000000000000000000000500000000004770580000000000000000000000000000000000000000000500000000004768660000000000000000000000000000000000000000000500000000004766750000000000000000000000000000000000000000000500000000004764830000000000000000000000000000000000000000000500000000004762920000000000000000000000000000000000000000000500000000004761010000000000000000000000000000000000000000000500000000004759100000000000000000000000000000000000000000000500000000004757200000000000000000000000000000000000000000000500000000004755300000000000000000000000000000000000000000000500000000004753400000000000000000000000000000000000000000000500000000004751500000000000000000000000000000000000000000000500000000004749600000000000000000000000000000000000000000000500000000004747710000000000000000000000000000000000000000000500000000004745820000000000000000000000000000000000000000000500000000004743930000000000000000000000000000000000000000000500000000004742050000000000000000000000000000000000000000000500000000004740170000000000000000000000000000000000000000000500000000004738290000000000000000000000000000000000000000000500000000004736410000000000000000000000000000000000000000000500000000004734530000000000000000000000000000000000000000000500000000004732660000000000000000000000000000000000000000000500000000004730790000000000000000000000000000000000000000000500000000004728920000000000000000000000000000000000000000000500000000004727050000000000000000000000000000000000000000000500000000004725190000000000000000000000000000000000000000000500000000004723330000000000000000000000000000000000000000000500000000004721470000000000000000000000000000000000000000000500000000004719620000000000000000000000000000000000000000000500000000004717760000000000000000000000000000000000000000000500000000004715910000000000000000000000000000000000000000000500000000004714060000000000000000000000000000000000000000000500000000004712210000000000000000000000000000000000000000000500000000004710370000000000000000000000000000000000000000000500000000004708530000000000000000000000000000000000000000000500000000004706690000000000000000000000000000000000000000000500000000004704850000000000000000000000000000000000000000000500000000004703020000000000000000000000000000000000000000000500000000004701180000000000000000000000000000000000000000000500000000004699350000000000000000000000000000000000000000000500000000004697520000000000000000000000000000000000000000000500000000004695700000000000000000000000000000000000000000000500000000004693880000000000000000000000000000000000000000000500000000004692050000000000000000000000000000000000000000000500000000004690240000000000000000000000000000000000000000000500000000004688420000000000000000000000000000000000000000000500000000004686600000000000000000000000000000000000000000000500000000004684790000000000000000000000000000000000000000000500000000004682980000000000000000000000000000000000000000000500000000004681170000000000000000000000000000000000000000000500000000004679370000000000000000000000000000000000000000000500000000004677570000000000000000000000000000000000000000000500000000004675770000000000000000000000000000000000000000000500000000004673970000000000000000000000000000000000000000000500000000004672170000000000000000000000000000000000000000000500000000004670380000000000000000000000000000000000000000000500000000004668580000000000000000000000000000000000000000000500000000004666790000000000000000000000000000000000000000000500000000004665010000000000000000000000000000000000000000000500000000004663220000000000000000000000000000000000000000000500000000004661440000000000000000000000000000000000000000000500000000004659660000000000000000000000000000000000000000000500000000004657890000000000000000000000000000000000000000000500000000004656110000000000000000000000000000000000000000000500000000004654350000000000000000000000000000000000000000000500000000004652590000000000000000000000000000000000000000000500000000004650840000000000000000000000000000000000000000000500000000004649090000000000000000000000000000000000000000000500000000004647300000000000000000000000000000000000000000000500000000004645260000000000000000000000000000000000000000000500000000004643730000000000000000000000000000000000000000000500000000004641970000000000000000000000000000000000000000000500000000004641100000000000000000000000000000000000000000000500000000004640140000000000000000000000000000000000000000000)
  pure val QR_1 = unpack(118, 500000000005122170000000000000000000000000000000000000000000500000000005119750000000000000000000000000000000000000000000500000000005117330000000000000000000000000000000000000000000500000000005114910000000000000000000000000000000000000000000500000000005112490000000000000000000000000000000000000000000500000000005110080000000000000000000000000000000000000000000500000000005107680000000000000000000000000000000000000000000500000000005105270000000000000000000000000000000000000000000500000000005102880000000000000000000000000000000000000000000500000000005100480000000000000000000000000000000000000000000500000000005098090000000000000000000000000000000000000000000500000000005095700000000000000000000000000000000000000000000500000000005093320000000000000000000000000000000000000000000500000000005090930000000000000000000000000000000000000000000500000000005088560000000000000000000000000000000000000000000500000000005086180000000000000000000000000000000000000000000500000000005083810000000000000000000000000000000000000000000500000000005081450000000000000000000000000000000000000000000500000000005079090000000000000000000000000000000000000000000500000000005076730000000000000000000000000000000000000000000500000000005074370000000000000000000000000000000000000000000500000000005072020000000000000000000000000000000000000000000500000000005069670000000000000000000000000000000000000000000500000000005067330000000000000000000000000000000000000000000500000000005064990000000000000000000000000000000000000000000500000000005062650000000000000000000000000000000000000000000500000000005060320000000000000000000000000000000000000000000500000000005057990000000000000000000000000000000000000000000500000000005055660000000000000000000000000000000000000000000500000000005053340000000000000000000000000000000000000000000500000000005051020000000000000000000000000000000000000000000500000000005048700000000000000000000000000000000000000000000500000000005046390000000000000000000000000000000000000000000500000000005044080000000000000000000000000000000000000000000500000000005041770000000000000000000000000000000000000000000500000000005039470000000000000000000000000000000000000000000500000000005037170000000000000000000000000000000000000000000500000000005034880000000000000000000000000000000000000000000500000000005032590000000000000000000000000000000000000000000500000000005030300000000000000000000000000000000000000000000500000000005028010000000000000000000000000000000000000000000500000000005025730000000000000000000000000000000000000000000500000000005023450000000000000000000000000000000000000000000500000000005021180000000000000000000000000000000000000000000500000000005018910000000000000000000000000000000000000000000500000000005016640000000000000000000000000000000000000000000500000000005014380000000000000000000000000000000000000000000500000000005012120000000000000000000000000000000000000000000500000000005009860000000000000000000000000000000000000000000500000000005007600000000000000000000000000000000000000000000500000000005005350000000000000000000000000000000000000000000500000000005003100000000000000000000000000000000000000000000500000000005000860000000000000000000000000000000000000000000500000000004998620000000000000000000000000000000000000000000500000000004996380000000000000000000000000000000000000000000500000000004994150000000000000000000000000000000000000000000500000000004991920000000000000000000000000000000000000000000500000000004989690000000000000000000000000000000000000000000500000000004987460000000000000000000000000000000000000000000500000000004985240000000000000000000000000000000000000000000500000000004983020000000000000000000000000000000000000000000500000000004980810000000000000000000000000000000000000000000500000000004978600000000000000000000000000000000000000000000500000000004976390000000000000000000000000000000000000000000500000000004974190000000000000000000000000000000000000000000500000000004971980000000000000000000000000000000000000000000500000000004969790000000000000000000000000000000000000000000500000000004967590000000000000000000000000000000000000000000500000000004965400000000000000000000000000000000000000000000500000000004963210000000000000000000000000000000000000000000500000000004961020000000000000000000000000000000000000000000500000000004958840000000000000000000000000000000000000000000500000000004956660000000000000000000000000000000000000000000500000000004954480000000000000000000000000000000000000000000500000000004952310000000000000000000000000000000000000000000500000000004950140000000000000000000000000000000000000000000500000000004947970000000000000000000000000000000000000000000500000000004945810000000000000000000000000000000000000000000500000000004943650000000000000000000000000000000000000000000500000000004941490000000000000000000000000000000000000000000500000000004939340000000000000000000000000000000000000000000500000000004937190000000000000000000000000000000000000000000500000000004935040000000000000000000000000000000000000000000500000000004932890000000000000000000000000000000000000000000500000000004930750000000000000000000000000000000000000000000500000000004928610000000000000000000000000000000000000000000500000000004926470000000000000000000000000000000000000000000500000000004924340000000000000000000000000000000000000000000500000000004922210000000000000000000000000000000000000000000500000000004920080000000000000000000000000000000000000000000500000000004917960000000000000000000000000000000000000000000500000000004915840000000000000000000000000000000000000000000500000000004913720000000000000000000000000000000000000000000500000000004911610000000000000000000000000000000000000000000500000000004909490000000000000000000000000000000000000000000500000000004907390000000000000000000000000000000000000000000500000000004905280000000000000000000000000000000000000000000500000000004903180000000000000000000000000000000000000000000500000000004901080000000000000000000000000000000000000000000500000000004898980000000000000000000000000000000000000000000500000000004896880000000000000000000000000000000000000000000500000000004894790000000000000000000000000000000000000000000500000000004892700000000000000000000000000000000000000000000500000000004890620000000000000000000000000000000000000000000500000000004888540000000000000000000000000000000000000000000500000000004886460000000000000000000000000000000000000000000500000000004884380000000000000000000000000000000000000000000500000000004882310000000000000000000000000000000000000000000500000000004880240000000000000000000000000000000000000000000500000000004878170000000000000000000000000000000000000000000500000000004876100000000000000000000000000000000000000000000500000000004874040000000000000000000000000000000000000000000500000000004871980000000000000000000000000000000000000000000500000000004869920000000000000000000000000000000000000000000500000000004867870000000000000000000000000000000000000000000500000000004865820000000000000000000000000000000000000000000500000000004863770000000000000000000000000000000000000000000500000000004861730000000000000000000000000000000000000000000)
  pure val QR_2 = unpack(118, 500000000005438400000000000000000000000000000000000000000000500000000005435440000000000000000000000000000000000000000000500000000005432480000000000000000000000000000000000000000000500000000005429530000000000000000000000000000000000000000000500000000005426590000000000000000000000000000000000000000000500000000005423650000000000000000000000000000000000000000000500000000005420720000000000000000000000000000000000000000000500000000005417790000000000000000000000000000000000000000000500000000005414860000000000000000000000000000000000000000000500000000005411950000000000000000000000000000000000000000000500000000005409030000000000000000000000000000000000000000000500000000005406130000000000000000000000000000000000000000000500000000005403220000000000000000000000000000000000000000000500000000005400330000000000000000000000000000000000000000000500000000005397440000000000000000000000000000000000000000000500000000005394550000000000000000000000000000000000000000000500000000005391670000000000000000000000000000000000000000000500000000005388790000000000000000000000000000000000000000000500000000005385920000000000000000000000000000000000000000000500000000005383050000000000000000000000000000000000000000000500000000005380190000000000000000000000000000000000000000000500000000005377340000000000000000000000000000000000000000000500000000005374490000000000000000000000000000000000000000000500000000005371640000000000000000000000000000000000000000000500000000005368800000000000000000000000000000000000000000000500000000005365960000000000000000000000000000000000000000000500000000005363130000000000000000000000000000000000000000000500000000005360310000000000000000000000000000000000000000000500000000005357490000000000000000000000000000000000000000000500000000005354670000000000000000000000000000000000000000000500000000005351860000000000000000000000000000000000000000000500000000005349050000000000000000000000000000000000000000000500000000005346250000000000000000000000000000000000000000000500000000005343450000000000000000000000000000000000000000000500000000005340660000000000000000000000000000000000000000000500000000005337880000000000000000000000000000000000000000000500000000005335090000000000000000000000000000000000000000000500000000005332320000000000000000000000000000000000000000000500000000005329540000000000000000000000000000000000000000000500000000005326780000000000000000000000000000000000000000000500000000005324020000000000000000000000000000000000000000000500000000005321260000000000000000000000000000000000000000000500000000005318500000000000000000000000000000000000000000000500000000005315760000000000000000000000000000000000000000000500000000005313010000000000000000000000000000000000000000000500000000005310270000000000000000000000000000000000000000000500000000005307540000000000000000000000000000000000000000000500000000005304810000000000000000000000000000000000000000000500000000005302080000000000000000000000000000000000000000000500000000005299360000000000000000000000000000000000000000000500000000005296650000000000000000000000000000000000000000000500000000005293940000000000000000000000000000000000000000000500000000005291230000000000000000000000000000000000000000000500000000005288530000000000000000000000000000000000000000000500000000005285830000000000000000000000000000000000000000000500000000005283140000000000000000000000000000000000000000000500000000005280450000000000000000000000000000000000000000000500000000005277770000000000000000000000000000000000000000000500000000005275090000000000000000000000000000000000000000000500000000005272420000000000000000000000000000000000000000000500000000005269750000000000000000000000000000000000000000000500000000005267080000000000000000000000000000000000000000000500000000005264420000000000000000000000000000000000000000000500000000005261760000000000000000000000000000000000000000000500000000005259110000000000000000000000000000000000000000000500000000005256460000000000000000000000000000000000000000000500000000005253820000000000000000000000000000000000000000000500000000005251180000000000000000000000000000000000000000000500000000005248550000000000000000000000000000000000000000000500000000005245920000000000000000000000000000000000000000000500000000005243290000000000000000000000000000000000000000000500000000005240670000000000000000000000000000000000000000000500000000005238050000000000000000000000000000000000000000000500000000005235440000000000000000000000000000000000000000000500000000005232830000000000000000000000000000000000000000000500000000005230230000000000000000000000000000000000000000000500000000005227630000000000000000000000000000000000000000000500000000005225030000000000000000000000000000000000000000000500000000005222440000000000000000000000000000000000000000000500000000005219860000000000000000000000000000000000000000000500000000005217270000000000000000000000000000000000000000000500000000005214700000000000000000000000000000000000000000000500000000005212120000000000000000000000000000000000000000000500000000005209550000000000000000000000000000000000000000000500000000005206990000000000000000000000000000000000000000000500000000005204430000000000000000000000000000000000000000000500000000005201870000000000000000000000000000000000000000000500000000005199310000000000000000000000000000000000000000000500000000005196770000000000000000000000000000000000000000000500000000005194220000000000000000000000000000000000000000000500000000005191680000000000000000000000000000000000000000000500000000005189140000000000000000000000000000000000000000000500000000005186610000000000000000000000000000000000000000000500000000005184080000000000000000000000000000000000000000000500000000005181560000000000000000000000000000000000000000000500000000005179040000000000000000000000000000000000000000000500000000005176520000000000000000000000000000000000000000000500000000005174010000000000000000000000000000000000000000000500000000005171500000000000000000000000000000000000000000000500000000005169000000000000000000000000000000000000000000000500000000005166500000000000000000000000000000000000000000000500000000005164000000000000000000000000000000000000000000000500000000005161510000000000000000000000000000000000000000000500000000005159020000000000000000000000000000000000000000000500000000005156540000000000000000000000000000000000000000000500000000005154060000000000000000000000000000000000000000000500000000005151580000000000000000000000000000000000000000000500000000005149110000000000000000000000000000000000000000000500000000005146640000000000000000000000000000000000000000000500000000005144180000000000000000000000000000000000000000000500000000005141720000000000000000000000000000000000000000000500000000005139260000000000000000000000000000000000000000000500000000005136810000000000000000000000000000000000000000000500000000005134360000000000000000000000000000000000000000000500000000005131920000000000000000000000000000000000000000000500000000005129470000000000000000000000000000000000000000000500000000005127040000000000000000000000000000000000000000000500000000005124600000000000000000000000000000000000000000000)
  pure val QR_3 = unpack(118, 500000000005831020000000000000000000000000000000000000000000500000000005827280000000000000000000000000000000000000000000500000000005823550000000000000000000000000000000000000000000500000000005819830000000000000000000000000000000000000000000500000000005816110000000000000000000000000000000000000000000500000000005812400000000000000000000000000000000000000000000500000000005808700000000000000000000000000000000000000000000500000000005805010000000000000000000000000000000000000000000500000000005801320000000000000000000000000000000000000000000500000000005797650000000000000000000000000000000000000000000500000000005793980000000000000000000000000000000000000000000500000000005790320000000000000000000000000000000000000000000500000000005786660000000000000000000000000000000000000000000500000000005783020000000000000000000000000000000000000000000500000000005779380000000000000000000000000000000000000000000500000000005775750000000000000000000000000000000000000000000500000000005772130000000000000000000000000000000000000000000500000000005768510000000000000000000000000000000000000000000500000000005764900000000000000000000000000000000000000000000500000000005761300000000000000000000000000000000000000000000500000000005757710000000000000000000000000000000000000000000500000000005754130000000000000000000000000000000000000000000500000000005750550000000000000000000000000000000000000000000500000000005746980000000000000000000000000000000000000000000500000000005743420000000000000000000000000000000000000000000500000000005739860000000000000000000000000000000000000000000500000000005736320000000000000000000000000000000000000000000500000000005732780000000000000000000000000000000000000000000500000000005729240000000000000000000000000000000000000000000500000000005725720000000000000000000000000000000000000000000500000000005722200000000000000000000000000000000000000000000500000000005718690000000000000000000000000000000000000000000500000000005715190000000000000000000000000000000000000000000500000000005711690000000000000000000000000000000000000000000500000000005708200000000000000000000000000000000000000000000500000000005704720000000000000000000000000000000000000000000500000000005701240000000000000000000000000000000000000000000500000000005697780000000000000000000000000000000000000000000500000000005694320000000000000000000000000000000000000000000500000000005690860000000000000000000000000000000000000000000500000000005687420000000000000000000000000000000000000000000500000000005683980000000000000000000000000000000000000000000500000000005680540000000000000000000000000000000000000000000500000000005677120000000000000000000000000000000000000000000500000000005673700000000000000000000000000000000000000000000500000000005670290000000000000000000000000000000000000000000500000000005666880000000000000000000000000000000000000000000500000000005663490000000000000000000000000000000000000000000500000000005660100000000000000000000000000000000000000000000500000000005656710000000000000000000000000000000000000000000500000000005653330000000000000000000000000000000000000000000500000000005649960000000000000000000000000000000000000000000500000000005646600000000000000000000000000000000000000000000500000000005643240000000000000000000000000000000000000000000500000000005639890000000000000000000000000000000000000000000500000000005636550000000000000000000000000000000000000000000500000000005633210000000000000000000000000000000000000000000500000000005629880000000000000000000000000000000000000000000500000000005626560000000000000000000000000000000000000000000500000000005623240000000000000000000000000000000000000000000500000000005619930000000000000000000000000000000000000000000500000000005616620000000000000000000000000000000000000000000500000000005613330000000000000000000000000000000000000000000500000000005610030000000000000000000000000000000000000000000500000000005606750000000000000000000000000000000000000000000500000000005603470000000000000000000000000000000000000000000500000000005600200000000000000000000000000000000000000000000500000000005596930000000000000000000000000000000000000000000500000000005593670000000000000000000000000000000000000000000500000000005590420000000000000000000000000000000000000000000500000000005587170000000000000000000000000000000000000000000500000000005583930000000000000000000000000000000000000000000500000000005580700000000000000000000000000000000000000000000500000000005577470000000000000000000000000000000000000000000500000000005574250000000000000000000000000000000000000000000500000000005571040000000000000000000000000000000000000000000500000000005567830000000000000000000000000000000000000000000500000000005564630000000000000000000000000000000000000000000500000000005561430000000000000000000000000000000000000000000500000000005558240000000000000000000000000000000000000000000500000000005555050000000000000000000000000000000000000000000500000000005551880000000000000000000000000000000000000000000500000000005548700000000000000000000000000000000000000000000500000000005545540000000000000000000000000000000000000000000500000000005542380000000000000000000000000000000000000000000500000000005539220000000000000000000000000000000000000000000500000000005536080000000000000000000000000000000000000000000500000000005532930000000000000000000000000000000000000000000500000000005529800000000000000000000000000000000000000000000500000000005526670000000000000000000000000000000000000000000500000000005523540000000000000000000000000000000000000000000500000000005520430000000000000000000000000000000000000000000500000000005517310000000000000000000000000000000000000000000500000000005514210000000000000000000000000000000000000000000500000000005511110000000000000000000000000000000000000000000500000000005508010000000000000000000000000000000000000000000500000000005504920000000000000000000000000000000000000000000500000000005501840000000000000000000000000000000000000000000500000000005498760000000000000000000000000000000000000000000500000000005495690000000000000000000000000000000000000000000500000000005492620000000000000000000000000000000000000000000500000000005489560000000000000000000000000000000000000000000500000000005486510000000000000000000000000000000000000000000500000000005483460000000000000000000000000000000000000000000500000000005480420000000000000000000000000000000000000000000500000000005477380000000000000000000000000000000000000000000500000000005474350000000000000000000000000000000000000000000500000000005471320000000000000000000000000000000000000000000500000000005468300000000000000000000000000000000000000000000500000000005465290000000000000000000000000000000000000000000500000000005462280000000000000000000000000000000000000000000500000000005459270000000000000000000000000000000000000000000500000000005456270000000000000000000000000000000000000000000500000000005453280000000000000000000000000000000000000000000500000000005450290000000000000000000000000000000000000000000500000000005447310000000000000000000000000000000000000000000500000000005444330000000000000000000000000000000000000000000500000000005441360000000000000000000000000000000000000000000)
  pure val QR_4 = unpack(118, 500000000006339610000000000000000000000000000000000000000000500000000006334640000000000000000000000000000000000000000000500000000006329680000000000000000000000000000000000000000000500000000006324740000000000000000000000000000000000000000000500000000006319810000000000000000000000000000000000000000000500000000006314890000000000000000000000000000000000000000000500000000006309980000000000000000000000000000000000000000000500000000006305090000000000000000000000000000000000000000000500000000006300210000000000000000000000000000000000000000000500000000006295340000000000000000000000000000000000000000000500000000006290490000000000000000000000000000000000000000000500000000006285650000000000000000000000000000000000000000000500000000006280820000000000000000000000000000000000000000000500000000006276000000000000000000000000000000000000000000000500000000006271200000000000000000000000000000000000000000000500000000006266410000000000000000000000000000000000000000000500000000006261630000000000000000000000000000000000000000000500000000006256870000000000000000000000000000000000000000000500000000006252120000000000000000000000000000000000000000000500000000006247370000000000000000000000000000000000000000000500000000006242650000000000000000000000000000000000000000000500000000006237930000000000000000000000000000000000000000000500000000006233230000000000000000000000000000000000000000000500000000006228530000000000000000000000000000000000000000000500000000006223850000000000000000000000000000000000000000000500000000006219190000000000000000000000000000000000000000000500000000006214530000000000000000000000000000000000000000000500000000006209890000000000000000000000000000000000000000000500000000006205260000000000000000000000000000000000000000000500000000006200640000000000000000000000000000000000000000000500000000006196030000000000000000000000000000000000000000000500000000006191430000000000000000000000000000000000000000000500000000006186840000000000000000000000000000000000000000000500000000006182270000000000000000000000000000000000000000000500000000006177710000000000000000000000000000000000000000000500000000006173160000000000000000000000000000000000000000000500000000006168620000000000000000000000000000000000000000000500000000006164090000000000000000000000000000000000000000000500000000006159580000000000000000000000000000000000000000000500000000006155070000000000000000000000000000000000000000000500000000006150580000000000000000000000000000000000000000000500000000006146090000000000000000000000000000000000000000000500000000006141620000000000000000000000000000000000000000000500000000006137160000000000000000000000000000000000000000000500000000006132710000000000000000000000000000000000000000000500000000006128270000000000000000000000000000000000000000000500000000006123850000000000000000000000000000000000000000000500000000006119430000000000000000000000000000000000000000000500000000006115020000000000000000000000000000000000000000000500000000006110630000000000000000000000000000000000000000000500000000006106240000000000000000000000000000000000000000000500000000006101870000000000000000000000000000000000000000000500000000006097510000000000000000000000000000000000000000000500000000006093150000000000000000000000000000000000000000000500000000006088810000000000000000000000000000000000000000000500000000006084480000000000000000000000000000000000000000000500000000006080160000000000000000000000000000000000000000000500000000006075850000000000000000000000000000000000000000000500000000006071550000000000000000000000000000000000000000000500000000006067260000000000000000000000000000000000000000000500000000006062980000000000000000000000000000000000000000000500000000006058710000000000000000000000000000000000000000000500000000006054450000000000000000000000000000000000000000000500000000006050200000000000000000000000000000000000000000000500000000006045970000000000000000000000000000000000000000000500000000006041740000000000000000000000000000000000000000000500000000006037520000000000000000000000000000000000000000000500000000006033310000000000000000000000000000000000000000000500000000006029110000000000000000000000000000000000000000000500000000006024920000000000000000000000000000000000000000000500000000006020740000000000000000000000000000000000000000000500000000006016580000000000000000000000000000000000000000000500000000006012420000000000000000000000000000000000000000000500000000006008270000000000000000000000000000000000000000000500000000006004130000000000000000000000000000000000000000000500000000006000000000000000000000000000000000000000000000000500000000005995880000000000000000000000000000000000000000000500000000005991770000000000000000000000000000000000000000000500000000005987670000000000000000000000000000000000000000000500000000005983570000000000000000000000000000000000000000000500000000005979490000000000000000000000000000000000000000000500000000005975420000000000000000000000000000000000000000000500000000005971350000000000000000000000000000000000000000000500000000005967300000000000000000000000000000000000000000000500000000005963260000000000000000000000000000000000000000000500000000005959220000000000000000000000000000000000000000000500000000005955190000000000000000000000000000000000000000000500000000005951180000000000000000000000000000000000000000000500000000005947170000000000000000000000000000000000000000000500000000005943170000000000000000000000000000000000000000000500000000005939180000000000000000000000000000000000000000000500000000005935200000000000000000000000000000000000000000000500000000005931230000000000000000000000000000000000000000000500000000005927270000000000000000000000000000000000000000000500000000005923310000000000000000000000000000000000000000000500000000005919370000000000000000000000000000000000000000000500000000005915430000000000000000000000000000000000000000000500000000005911510000000000000000000000000000000000000000000500000000005907590000000000000000000000000000000000000000000500000000005903680000000000000000000000000000000000000000000500000000005899780000000000000000000000000000000000000000000500000000005895890000000000000000000000000000000000000000000500000000005892000000000000000000000000000000000000000000000500000000005888130000000000000000000000000000000000000000000500000000005884260000000000000000000000000000000000000000000500000000005880400000000000000000000000000000000000000000000500000000005876560000000000000000000000000000000000000000000500000000005872720000000000000000000000000000000000000000000500000000005868880000000000000000000000000000000000000000000500000000005865060000000000000000000000000000000000000000000500000000005861250000000000000000000000000000000000000000000500000000005857440000000000000000000000000000000000000000000500000000005853640000000000000000000000000000000000000000000500000000005849850000000000000000000000000000000000000000000500000000005846070000000000000000000000000000000000000000000500000000005842300000000000000000000000000000000000000000000500000000005838530000000000000000000000000000000000000000000500000000005834770000000000000000000000000000000000000000000)
  pure val QR_5 = unpack(118, 500000000007042940000000000000000000000000000000000000000000500000000007035770000000000000000000000000000000000000000000500000000007028620000000000000000000000000000000000000000000500000000007021510000000000000000000000000000000000000000000500000000007014410000000000000000000000000000000000000000000500000000007007340000000000000000000000000000000000000000000500000000007000300000000000000000000000000000000000000000000500000000006993280000000000000000000000000000000000000000000500000000006986290000000000000000000000000000000000000000000500000000006979320000000000000000000000000000000000000000000500000000006972380000000000000000000000000000000000000000000500000000006965460000000000000000000000000000000000000000000500000000006958560000000000000000000000000000000000000000000500000000006951690000000000000000000000000000000000000000000500000000006944840000000000000000000000000000000000000000000500000000006938020000000000000000000000000000000000000000000500000000006931220000000000000000000000000000000000000000000500000000006924440000000000000000000000000000000000000000000500000000006917690000000000000000000000000000000000000000000500000000006910960000000000000000000000000000000000000000000500000000006904250000000000000000000000000000000000000000000500000000006897570000000000000000000000000000000000000000000500000000006890900000000000000000000000000000000000000000000500000000006884260000000000000000000000000000000000000000000500000000006877650000000000000000000000000000000000000000000500000000006871050000000000000000000000000000000000000000000500000000006864480000000000000000000000000000000000000000000500000000006857930000000000000000000000000000000000000000000500000000006851400000000000000000000000000000000000000000000500000000006844890000000000000000000000000000000000000000000500000000006838410000000000000000000000000000000000000000000500000000006831940000000000000000000000000000000000000000000500000000006825500000000000000000000000000000000000000000000500000000006819080000000000000000000000000000000000000000000500000000006812680000000000000000000000000000000000000000000500000000006806300000000000000000000000000000000000000000000500000000006799940000000000000000000000000000000000000000000500000000006793600000000000000000000000000000000000000000000500000000006787290000000000000000000000000000000000000000000500000000006780990000000000000000000000000000000000000000000500000000006774710000000000000000000000000000000000000000000500000000006768460000000000000000000000000000000000000000000500000000006762220000000000000000000000000000000000000000000500000000006756010000000000000000000000000000000000000000000500000000006749810000000000000000000000000000000000000000000500000000006743640000000000000000000000000000000000000000000500000000006737480000000000000000000000000000000000000000000500000000006731340000000000000000000000000000000000000000000500000000006725230000000000000000000000000000000000000000000500000000006719130000000000000000000000000000000000000000000500000000006713050000000000000000000000000000000000000000000500000000006706990000000000000000000000000000000000000000000500000000006700950000000000000000000000000000000000000000000500000000006694930000000000000000000000000000000000000000000500000000006688920000000000000000000000000000000000000000000500000000006682940000000000000000000000000000000000000000000500000000006676970000000000000000000000000000000000000000000500000000006671030000000000000000000000000000000000000000000500000000006665100000000000000000000000000000000000000000000500000000006659190000000000000000000000000000000000000000000500000000006653300000000000000000000000000000000000000000000500000000006647420000000000000000000000000000000000000000000500000000006641570000000000000000000000000000000000000000000500000000006635730000000000000000000000000000000000000000000500000000006629910000000000000000000000000000000000000000000500000000006624110000000000000000000000000000000000000000000500000000006618320000000000000000000000000000000000000000000500000000006612550000000000000000000000000000000000000000000500000000006606800000000000000000000000000000000000000000000500000000006601070000000000000000000000000000000000000000000500000000006595350000000000000000000000000000000000000000000500000000006589660000000000000000000000000000000000000000000500000000006583980000000000000000000000000000000000000000000500000000006578310000000000000000000000000000000000000000000500000000006572660000000000000000000000000000000000000000000500000000006567030000000000000000000000000000000000000000000500000000006561420000000000000000000000000000000000000000000500000000006555820000000000000000000000000000000000000000000500000000006550240000000000000000000000000000000000000000000500000000006544680000000000000000000000000000000000000000000500000000006539130000000000000000000000000000000000000000000500000000006533600000000000000000000000000000000000000000000500000000006528080000000000000000000000000000000000000000000500000000006522580000000000000000000000000000000000000000000500000000006517100000000000000000000000000000000000000000000500000000006511630000000000000000000000000000000000000000000500000000006506180000000000000000000000000000000000000000000500000000006500740000000000000000000000000000000000000000000500000000006495320000000000000000000000000000000000000000000500000000006489920000000000000000000000000000000000000000000500000000006484530000000000000000000000000000000000000000000500000000006479150000000000000000000000000000000000000000000500000000006473790000000000000000000000000000000000000000000500000000006468450000000000000000000000000000000000000000000500000000006463120000000000000000000000000000000000000000000500000000006457810000000000000000000000000000000000000000000500000000006452510000000000000000000000000000000000000000000500000000006447230000000000000000000000000000000000000000000500000000006441960000000000000000000000000000000000000000000500000000006436710000000000000000000000000000000000000000000500000000006431470000000000000000000000000000000000000000000500000000006426240000000000000000000000000000000000000000000500000000006421030000000000000000000000000000000000000000000500000000006415840000000000000000000000000000000000000000000500000000006410660000000000000000000000000000000000000000000500000000006405490000000000000000000000000000000000000000000500000000006400340000000000000000000000000000000000000000000500000000006395200000000000000000000000000000000000000000000500000000006390080000000000000000000000000000000000000000000500000000006384970000000000000000000000000000000000000000000500000000006379880000000000000000000000000000000000000000000500000000006374800000000000000000000000000000000000000000000500000000006369730000000000000000000000000000000000000000000500000000006364680000000000000000000000000000000000000000000500000000006359640000000000000000000000000000000000000000000500000000006354610000000000000000000000000000000000000000000500000000006349600000000000000000000000000000000000000000000500000000006344600000000000000000000000000000000000000000000)
  pure val QR_6 = unpack(118, 500000000008136080000000000000000000000000000000000000000000500000000008123980000000000000000000000000000000000000000000500000000008111950000000000000000000000000000000000000000000500000000008099990000000000000000000000000000000000000000000500000000008088090000000000000000000000000000000000000000000500000000008076260000000000000000000000000000000000000000000500000000008064490000000000000000000000000000000000000000000500000000008052790000000000000000000000000000000000000000000500000000008041150000000000000000000000000000000000000000000500000000008029570000000000000000000000000000000000000000000500000000008018050000000000000000000000000000000000000000000500000000008006600000000000000000000000000000000000000000000500000000007995200000000000000000000000000000000000000000000500000000007983860000000000000000000000000000000000000000000500000000007972590000000000000000000000000000000000000000000500000000007961370000000000000000000000000000000000000000000500000000007950210000000000000000000000000000000000000000000500000000007939110000000000000000000000000000000000000000000500000000007928060000000000000000000000000000000000000000000500000000007917080000000000000000000000000000000000000000000500000000007906140000000000000000000000000000000000000000000500000000007895270000000000000000000000000000000000000000000500000000007884450000000000000000000000000000000000000000000500000000007873680000000000000000000000000000000000000000000500000000007862970000000000000000000000000000000000000000000500000000007852310000000000000000000000000000000000000000000500000000007841700000000000000000000000000000000000000000000500000000007831150000000000000000000000000000000000000000000500000000007820650000000000000000000000000000000000000000000500000000007810200000000000000000000000000000000000000000000500000000007799800000000000000000000000000000000000000000000500000000007789450000000000000000000000000000000000000000000500000000007779150000000000000000000000000000000000000000000500000000007768900000000000000000000000000000000000000000000500000000007758700000000000000000000000000000000000000000000500000000007748550000000000000000000000000000000000000000000500000000007738450000000000000000000000000000000000000000000500000000007728400000000000000000000000000000000000000000000500000000007718390000000000000000000000000000000000000000000500000000007708430000000000000000000000000000000000000000000500000000007698520000000000000000000000000000000000000000000500000000007688650000000000000000000000000000000000000000000500000000007678830000000000000000000000000000000000000000000500000000007669060000000000000000000000000000000000000000000500000000007659330000000000000000000000000000000000000000000500000000007649650000000000000000000000000000000000000000000500000000007640010000000000000000000000000000000000000000000500000000007630410000000000000000000000000000000000000000000500000000007620860000000000000000000000000000000000000000000500000000007611350000000000000000000000000000000000000000000500000000007601880000000000000000000000000000000000000000000500000000007592460000000000000000000000000000000000000000000500000000007583080000000000000000000000000000000000000000000500000000007573740000000000000000000000000000000000000000000500000000007564450000000000000000000000000000000000000000000500000000007555190000000000000000000000000000000000000000000500000000007545970000000000000000000000000000000000000000000500000000007536800000000000000000000000000000000000000000000500000000007527670000000000000000000000000000000000000000000500000000007518570000000000000000000000000000000000000000000500000000007509520000000000000000000000000000000000000000000500000000007500500000000000000000000000000000000000000000000500000000007491530000000000000000000000000000000000000000000500000000007482590000000000000000000000000000000000000000000500000000007473690000000000000000000000000000000000000000000500000000007464830000000000000000000000000000000000000000000500000000007456010000000000000000000000000000000000000000000500000000007447220000000000000000000000000000000000000000000500000000007438470000000000000000000000000000000000000000000500000000007429760000000000000000000000000000000000000000000500000000007421090000000000000000000000000000000000000000000500000000007412450000000000000000000000000000000000000000000500000000007403840000000000000000000000000000000000000000000500000000007395280000000000000000000000000000000000000000000500000000007386750000000000000000000000000000000000000000000500000000007378250000000000000000000000000000000000000000000500000000007369790000000000000000000000000000000000000000000500000000007361360000000000000000000000000000000000000000000500000000007352970000000000000000000000000000000000000000000500000000007344620000000000000000000000000000000000000000000500000000007336290000000000000000000000000000000000000000000500000000007328000000000000000000000000000000000000000000000500000000007319750000000000000000000000000000000000000000000500000000007311520000000000000000000000000000000000000000000500000000007303330000000000000000000000000000000000000000000500000000007295180000000000000000000000000000000000000000000500000000007287050000000000000000000000000000000000000000000500000000007278960000000000000000000000000000000000000000000500000000007270900000000000000000000000000000000000000000000500000000007262870000000000000000000000000000000000000000000500000000007254880000000000000000000000000000000000000000000500000000007246910000000000000000000000000000000000000000000500000000007238980000000000000000000000000000000000000000000500000000007231070000000000000000000000000000000000000000000500000000007223200000000000000000000000000000000000000000000500000000007215360000000000000000000000000000000000000000000500000000007207550000000000000000000000000000000000000000000500000000007199760000000000000000000000000000000000000000000500000000007192010000000000000000000000000000000000000000000500000000007184290000000000000000000000000000000000000000000500000000007176600000000000000000000000000000000000000000000500000000007168930000000000000000000000000000000000000000000500000000007161300000000000000000000000000000000000000000000500000000007153690000000000000000000000000000000000000000000500000000007146120000000000000000000000000000000000000000000500000000007138570000000000000000000000000000000000000000000500000000007131050000000000000000000000000000000000000000000500000000007123550000000000000000000000000000000000000000000500000000007116090000000000000000000000000000000000000000000500000000007108650000000000000000000000000000000000000000000500000000007101240000000000000000000000000000000000000000000500000000007093860000000000000000000000000000000000000000000500000000007086510000000000000000000000000000000000000000000500000000007079180000000000000000000000000000000000000000000500000000007071880000000000000000000000000000000000000000000500000000007064600000000000000000000000000000000000000000000500000000007057350000000000000000000000000000000000000000000500000000007050130000000000000000000000000000000000000000000)
  pure val QR_7 = unpack(118, 500000000010410200000000000000000000000000000000000000000000500000000010377500000000000000000000000000000000000000000000500000000010345400000000000000000000000000000000000000000000500000000010313600000000000000000000000000000000000000000000500000000010282300000000000000000000000000000000000000000000500000000010251400000000000000000000000000000000000000000000500000000010220900000000000000000000000000000000000000000000500000000010190800000000000000000000000000000000000000000000500000000010161100000000000000000000000000000000000000000000500000000010131800000000000000000000000000000000000000000000500000000010102800000000000000000000000000000000000000000000500000000010074200000000000000000000000000000000000000000000500000000010046000000000000000000000000000000000000000000000500000000010018000000000000000000000000000000000000000000000500000000009990430000000000000000000000000000000000000000000500000000009963160000000000000000000000000000000000000000000500000000009936200000000000000000000000000000000000000000000500000000009909550000000000000000000000000000000000000000000500000000009883200000000000000000000000000000000000000000000500000000009857150000000000000000000000000000000000000000000500000000009831380000000000000000000000000000000000000000000500000000009805900000000000000000000000000000000000000000000500000000009780690000000000000000000000000000000000000000000500000000009755760000000000000000000000000000000000000000000500000000009731090000000000000000000000000000000000000000000500000000009706670000000000000000000000000000000000000000000500000000009682510000000000000000000000000000000000000000000500000000009658600000000000000000000000000000000000000000000500000000009634940000000000000000000000000000000000000000000500000000009611510000000000000000000000000000000000000000000500000000009588320000000000000000000000000000000000000000000500000000009565360000000000000000000000000000000000000000000500000000009542620000000000000000000000000000000000000000000500000000009520100000000000000000000000000000000000000000000500000000009497800000000000000000000000000000000000000000000500000000009475710000000000000000000000000000000000000000000500000000009453840000000000000000000000000000000000000000000500000000009432160000000000000000000000000000000000000000000500000000009410690000000000000000000000000000000000000000000500000000009389420000000000000000000000000000000000000000000500000000009368340000000000000000000000000000000000000000000500000000009347450000000000000000000000000000000000000000000500000000009326750000000000000000000000000000000000000000000500000000009306230000000000000000000000000000000000000000000500000000009285900000000000000000000000000000000000000000000500000000009265740000000000000000000000000000000000000000000500000000009245760000000000000000000000000000000000000000000500000000009225950000000000000000000000000000000000000000000500000000009206310000000000000000000000000000000000000000000500000000009186840000000000000000000000000000000000000000000500000000009167530000000000000000000000000000000000000000000500000000009148380000000000000000000000000000000000000000000500000000009129390000000000000000000000000000000000000000000500000000009110560000000000000000000000000000000000000000000500000000009091880000000000000000000000000000000000000000000500000000009073350000000000000000000000000000000000000000000500000000009054970000000000000000000000000000000000000000000500000000009036740000000000000000000000000000000000000000000500000000009018650000000000000000000000000000000000000000000500000000009000700000000000000000000000000000000000000000000500000000008982900000000000000000000000000000000000000000000500000000008965230000000000000000000000000000000000000000000500000000008947700000000000000000000000000000000000000000000500000000008930310000000000000000000000000000000000000000000500000000008913040000000000000000000000000000000000000000000500000000008895910000000000000000000000000000000000000000000500000000008878900000000000000000000000000000000000000000000500000000008862020000000000000000000000000000000000000000000500000000008845270000000000000000000000000000000000000000000500000000008828640000000000000000000000000000000000000000000500000000008812130000000000000000000000000000000000000000000500000000008795740000000000000000000000000000000000000000000500000000008779470000000000000000000000000000000000000000000500000000008763310000000000000000000000000000000000000000000500000000008747270000000000000000000000000000000000000000000500000000008731350000000000000000000000000000000000000000000500000000008715530000000000000000000000000000000000000000000500000000008699830000000000000000000000000000000000000000000500000000008684230000000000000000000000000000000000000000000500000000008668750000000000000000000000000000000000000000000500000000008653360000000000000000000000000000000000000000000500000000008638090000000000000000000000000000000000000000000500000000008622920000000000000000000000000000000000000000000500000000008607840000000000000000000000000000000000000000000500000000008592870000000000000000000000000000000000000000000500000000008578000000000000000000000000000000000000000000000500000000008563230000000000000000000000000000000000000000000500000000008548560000000000000000000000000000000000000000000500000000008533980000000000000000000000000000000000000000000500000000008519490000000000000000000000000000000000000000000500000000008505100000000000000000000000000000000000000000000500000000008490800000000000000000000000000000000000000000000500000000008476600000000000000000000000000000000000000000000500000000008462480000000000000000000000000000000000000000000500000000008448450000000000000000000000000000000000000000000500000000008434510000000000000000000000000000000000000000000500000000008420660000000000000000000000000000000000000000000500000000008406890000000000000000000000000000000000000000000500000000008393210000000000000000000000000000000000000000000500000000008379620000000000000000000000000000000000000000000500000000008366100000000000000000000000000000000000000000000500000000008352670000000000000000000000000000000000000000000500000000008339320000000000000000000000000000000000000000000500000000008326050000000000000000000000000000000000000000000500000000008312860000000000000000000000000000000000000000000500000000008299750000000000000000000000000000000000000000000500000000008286720000000000000000000000000000000000000000000500000000008273760000000000000000000000000000000000000000000500000000008260880000000000000000000000000000000000000000000500000000008248080000000000000000000000000000000000000000000500000000008235340000000000000000000000000000000000000000000500000000008222690000000000000000000000000000000000000000000500000000008210100000000000000000000000000000000000000000000500000000008197590000000000000000000000000000000000000000000500000000008185150000000000000000000000000000000000000000000500000000008172780000000000000000000000000000000000000000000500000000008160480000000000000000000000000000000000000000000500000000008148240000000000000000000000000000000000000000000)
  pure val QR_8 = unpack(59, 500000000015796190000000000000000000000000000000000000000000500000000015212820000000000000000000000000000000000000000000500000000014937070000000000000000000000000000000000000000000500000000014561110000000000000000000000000000000000000000000500000000014283300000000000000000000000000000000000000000000500000000014056000000000000000000000000000000000000000000000500000000013860700000000000000000000000000000000000000000000500000000013688100000000000000000000000000000000000000000000500000000013532500000000000000000000000000000000000000000000500000000013390400000000000000000000000000000000000000000000500000000013259200000000000000000000000000000000000000000000500000000013137100000000000000000000000000000000000000000000500000000013022800000000000000000000000000000000000000000000500000000012915100000000000000000000000000000000000000000000500000000012813200000000000000000000000000000000000000000000500000000012716500000000000000000000000000000000000000000000500000000012624300000000000000000000000000000000000000000000500000000012536200000000000000000000000000000000000000000000500000000012451900000000000000000000000000000000000000000000500000000012370900000000000000000000000000000000000000000000500000000012293000000000000000000000000000000000000000000000500000000012217900000000000000000000000000000000000000000000500000000012145400000000000000000000000000000000000000000000500000000012075400000000000000000000000000000000000000000000500000000012007600000000000000000000000000000000000000000000500000000011941800000000000000000000000000000000000000000000500000000011878100000000000000000000000000000000000000000000500000000011816100000000000000000000000000000000000000000000500000000011755900000000000000000000000000000000000000000000500000000011697200000000000000000000000000000000000000000000500000000011640100000000000000000000000000000000000000000000500000000011584500000000000000000000000000000000000000000000500000000011530200000000000000000000000000000000000000000000500000000011477200000000000000000000000000000000000000000000500000000011425400000000000000000000000000000000000000000000500000000011374800000000000000000000000000000000000000000000500000000011325400000000000000000000000000000000000000000000500000000011276900000000000000000000000000000000000000000000500000000011229500000000000000000000000000000000000000000000500000000011183100000000000000000000000000000000000000000000500000000011137600000000000000000000000000000000000000000000500000000011093000000000000000000000000000000000000000000000500000000011049300000000000000000000000000000000000000000000500000000011006300000000000000000000000000000000000000000000500000000010964200000000000000000000000000000000000000000000500000000010922800000000000000000000000000000000000000000000500000000010882200000000000000000000000000000000000000000000500000000010842200000000000000000000000000000000000000000000500000000010803000000000000000000000000000000000000000000000500000000010764400000000000000000000000000000000000000000000500000000010726400000000000000000000000000000000000000000000500000000010689100000000000000000000000000000000000000000000500000000010652300000000000000000000000000000000000000000000500000000010616100000000000000000000000000000000000000000000500000000010580500000000000000000000000000000000000000000000500000000010545400000000000000000000000000000000000000000000500000000010510900000000000000000000000000000000000000000000500000000010476800000000000000000000000000000000000000000000500000000010443200000000000000000000000000000000000000000000)
  pure val QR = List(QR_0, QR_1, QR_2, QR_3, QR_4, QR_5, QR_6, QR_7, QR_8)
  pure val QD_0 = unpack(118, 500000000001409810000000000000000000000000000000000000000000500000000001409740000000000000000000000000000000000000000000500000000001409670000000000000000000000000000000000000000000500000000001409610000000000000000000000000000000000000000000500000000001409540000000000000000000000000000000000000000000500000000001409470000000000000000000000000000000000000000000500000000001409400000000000000000000000000000000000000000000500000000001409340000000000000000000000000000000000000000000500000000001409270000000000000000000000000000000000000000000500000000001409200000000000000000000000000000000000000000000500000000001409130000000000000000000000000000000000000000000500000000001409060000000000000000000000000000000000000000000500000000001408990000000000000000000000000000000000000000000500000000001408920000000000000000000000000000000000000000000500000000001408850000000000000000000000000000000000000000000500000000001408790000000000000000000000000000000000000000000500000000001408720000000000000000000000000000000000000000000500000000001408650000000000000000000000000000000000000000000500000000001408580000000000000000000000000000000000000000000500000000001408510000000000000000000000000000000000000000000500000000001408440000000000000000000000000000000000000000000500000000001408370000000000000000000000000000000000000000000500000000001408290000000000000000000000000000000000000000000500000000001408220000000000000000000000000000000000000000000500000000001408150000000000000000000000000000000000000000000500000000001408080000000000000000000000000000000000000000000500000000001408010000000000000000000000000000000000000000000500000000001407940000000000000000000000000000000000000000000500000000001407870000000000000000000000000000000000000000000500000000001407800000000000000000000000000000000000000000000500000000001407720000000000000000000000000000000000000000000500000000001407650000000000000000000000000000000000000000000500000000001407580000000000000000000000000000000000000000000500000000001407510000000000000000000000000000000000000000000500000000001407440000000000000000000000000000000000000000000500000000001407360000000000000000000000000000000000000000000500000000001407290000000000000000000000000000000000000000000500000000001407220000000000000000000000000000000000000000000500000000001407140000000000000000000000000000000000000000000500000000001407070000000000000000000000000000000000000000000500000000001407000000000000000000000000000000000000000000000500000000001406920000000000000000000000000000000000000000000500000000001406850000000000000000000000000000000000000000000500000000001406770000000000000000000000000000000000000000000500000000001406700000000000000000000000000000000000000000000500000000001406630000000000000000000000000000000000000000000500000000001406550000000000000000000000000000000000000000000500000000001406480000000000000000000000000000000000000000000500000000001406400000000000000000000000000000000000000000000500000000001406330000000000000000000000000000000000000000000500000000001406250000000000000000000000000000000000000000000500000000001406180000000000000000000000000000000000000000000500000000001406100000000000000000000000000000000000000000000500000000001406030000000000000000000000000000000000000000000500000000001405950000000000000000000000000000000000000000000500000000001405870000000000000000000000000000000000000000000500000000001405800000000000000000000000000000000000000000000500000000001405720000000000000000000000000000000000000000000500000000001405650000000000000000000000000000000000000000000500000000001405570000000000000000000000000000000000000000000500000000001405490000000000000000000000000000000000000000000500000000001405420000000000000000000000000000000000000000000500000000001405340000000000000000000000000000000000000000000500000000001405260000000000000000000000000000000000000000000500000000001405190000000000000000000000000000000000000000000500000000001405110000000000000000000000000000000000000000000500000000001405030000000000000000000000000000000000000000000500000000001404950000000000000000000000000000000000000000000500000000001404870000000000000000000000000000000000000000000500000000001404800000000000000000000000000000000000000000000500000000001404720000000000000000000000000000000000000000000500000000001404640000000000000000000000000000000000000000000500000000001404560000000000000000000000000000000000000000000500000000001404480000000000000000000000000000000000000000000500000000001404400000000000000000000000000000000000000000000500000000001404330000000000000000000000000000000000000000000500000000001404250000000000000000000000000000000000000000000500000000001404170000000000000000000000000000000000000000000500000000001404090000000000000000000000000000000000000000000500000000001404010000000000000000000000000000000000000000000500000000001403930000000000000000000000000000000000000000000500000000001403850000000000000000000000000000000000000000000500000000001403770000000000000000000000000000000000000000000500000000001403690000000000000000000000000000000000000000000500000000001403610000000000000000000000000000000000000000000500000000001403530000000000000000000000000000000000000000000500000000001403450000000000000000000000000000000000000000000500000000001403370000000000000000000000000000000000000000000500000000001403290000000000000000000000000000000000000000000500000000001403210000000000000000000000000000000000000000000500000000001403130000000000000000000000000000000000000000000500000000001403050000000000000000000000000000000000000000000500000000001402960000000000000000000000000000000000000000000500000000001402880000000000000000000000000000000000000000000500000000001402800000000000000000000000000000000000000000000500000000001402720000000000000000000000000000000000000000000500000000001402640000000000000000000000000000000000000000000500000000001402560000000000000000000000000000000000000000000500000000001402470000000000000000000000000000000000000000000500000000001402390000000000000000000000000000000000000000000500000000001402310000000000000000000000000000000000000000000500000000001402230000000000000000000000000000000000000000000500000000001402140000000000000000000000000000000000000000000500000000001402060000000000000000000000000000000000000000000500000000001401980000000000000000000000000000000000000000000500000000001401890000000000000000000000000000000000000000000500000000001401810000000000000000000000000000000000000000000500000000001401720000000000000000000000000000000000000000000500000000001401640000000000000000000000000000000000000000000500000000001401560000000000000000000000000000000000000000000500000000001401500000000000000000000000000000000000000000000500000000001401480000000000000000000000000000000000000000000500000000001401540000000000000000000000000000000000000000000500000000001401770000000000000000000000000000000000000000000500000000001401140000000000000000000000000000000000000000000500000000001401060000000000000000000000000000000000000000000500000000001401020000000000000000000000000000000000000000000500000000001400980000000000000000000000000000000000000000000)
  pure val QD_1 = unpack(118, 500000000001416330000000000000000000000000000000000000000000500000000001416290000000000000000000000000000000000000000000500000000001416250000000000000000000000000000000000000000000500000000001416210000000000000000000000000000000000000000000500000000001416160000000000000000000000000000000000000000000500000000001416120000000000000000000000000000000000000000000500000000001416080000000000000000000000000000000000000000000500000000001416030000000000000000000000000000000000000000000500000000001415990000000000000000000000000000000000000000000500000000001415940000000000000000000000000000000000000000000500000000001415900000000000000000000000000000000000000000000500000000001415850000000000000000000000000000000000000000000500000000001415810000000000000000000000000000000000000000000500000000001415760000000000000000000000000000000000000000000500000000001415720000000000000000000000000000000000000000000500000000001415670000000000000000000000000000000000000000000500000000001415620000000000000000000000000000000000000000000500000000001415580000000000000000000000000000000000000000000500000000001415530000000000000000000000000000000000000000000500000000001415490000000000000000000000000000000000000000000500000000001415440000000000000000000000000000000000000000000500000000001415390000000000000000000000000000000000000000000500000000001415340000000000000000000000000000000000000000000500000000001415300000000000000000000000000000000000000000000500000000001415250000000000000000000000000000000000000000000500000000001415200000000000000000000000000000000000000000000500000000001415150000000000000000000000000000000000000000000500000000001415100000000000000000000000000000000000000000000500000000001415050000000000000000000000000000000000000000000500000000001415000000000000000000000000000000000000000000000500000000001414960000000000000000000000000000000000000000000500000000001414910000000000000000000000000000000000000000000500000000001414860000000000000000000000000000000000000000000500000000001414810000000000000000000000000000000000000000000500000000001414760000000000000000000000000000000000000000000500000000001414710000000000000000000000000000000000000000000500000000001414660000000000000000000000000000000000000000000500000000001414600000000000000000000000000000000000000000000500000000001414550000000000000000000000000000000000000000000500000000001414500000000000000000000000000000000000000000000500000000001414450000000000000000000000000000000000000000000500000000001414400000000000000000000000000000000000000000000500000000001414350000000000000000000000000000000000000000000500000000001414290000000000000000000000000000000000000000000500000000001414240000000000000000000000000000000000000000000500000000001414190000000000000000000000000000000000000000000500000000001414140000000000000000000000000000000000000000000500000000001414080000000000000000000000000000000000000000000500000000001414030000000000000000000000000000000000000000000500000000001413980000000000000000000000000000000000000000000500000000001413920000000000000000000000000000000000000000000500000000001413870000000000000000000000000000000000000000000500000000001413820000000000000000000000000000000000000000000500000000001413760000000000000000000000000000000000000000000500000000001413710000000000000000000000000000000000000000000500000000001413650000000000000000000000000000000000000000000500000000001413600000000000000000000000000000000000000000000500000000001413540000000000000000000000000000000000000000000500000000001413490000000000000000000000000000000000000000000500000000001413430000000000000000000000000000000000000000000500000000001413380000000000000000000000000000000000000000000500000000001413320000000000000000000000000000000000000000000500000000001413260000000000000000000000000000000000000000000500000000001413210000000000000000000000000000000000000000000500000000001413150000000000000000000000000000000000000000000500000000001413090000000000000000000000000000000000000000000500000000001413040000000000000000000000000000000000000000000500000000001412980000000000000000000000000000000000000000000500000000001412920000000000000000000000000000000000000000000500000000001412870000000000000000000000000000000000000000000500000000001412810000000000000000000000000000000000000000000500000000001412750000000000000000000000000000000000000000000500000000001412690000000000000000000000000000000000000000000500000000001412630000000000000000000000000000000000000000000500000000001412570000000000000000000000000000000000000000000500000000001412520000000000000000000000000000000000000000000500000000001412460000000000000000000000000000000000000000000500000000001412400000000000000000000000000000000000000000000500000000001412340000000000000000000000000000000000000000000500000000001412280000000000000000000000000000000000000000000500000000001412220000000000000000000000000000000000000000000500000000001412160000000000000000000000000000000000000000000500000000001412100000000000000000000000000000000000000000000500000000001412040000000000000000000000000000000000000000000500000000001411980000000000000000000000000000000000000000000500000000001411920000000000000000000000000000000000000000000500000000001411860000000000000000000000000000000000000000000500000000001411800000000000000000000000000000000000000000000500000000001411730000000000000000000000000000000000000000000500000000001411670000000000000000000000000000000000000000000500000000001411610000000000000000000000000000000000000000000500000000001411550000000000000000000000000000000000000000000500000000001411490000000000000000000000000000000000000000000500000000001411420000000000000000000000000000000000000000000500000000001411360000000000000000000000000000000000000000000500000000001411300000000000000000000000000000000000000000000500000000001411240000000000000000000000000000000000000000000500000000001411170000000000000000000000000000000000000000000500000000001411110000000000000000000000000000000000000000000500000000001411050000000000000000000000000000000000000000000500000000001410980000000000000000000000000000000000000000000500000000001410920000000000000000000000000000000000000000000500000000001410860000000000000000000000000000000000000000000500000000001410790000000000000000000000000000000000000000000500000000001410730000000000000000000000000000000000000000000500000000001410660000000000000000000000000000000000000000000500000000001410600000000000000000000000000000000000000000000500000000001410530000000000000000000000000000000000000000000500000000001410470000000000000000000000000000000000000000000500000000001410400000000000000000000000000000000000000000000500000000001410340000000000000000000000000000000000000000000500000000001410270000000000000000000000000000000000000000000500000000001410210000000000000000000000000000000000000000000500000000001410140000000000000000000000000000000000000000000500000000001410070000000000000000000000000000000000000000000500000000001410010000000000000000000000000000000000000000000500000000001409940000000000000000000000000000000000000000000500000000001409880000000000000000000000000000000000000000000)
  pure val QD_2 = unpack(118, 500000000001419430000000000000000000000000000000000000000000500000000001419420000000000000000000000000000000000000000000500000000001419420000000000000000000000000000000000000000000500000000001419410000000000000000000000000000000000000000000500000000001419400000000000000000000000000000000000000000000500000000001419390000000000000000000000000000000000000000000500000000001419380000000000000000000000000000000000000000000500000000001419370000000000000000000000000000000000000000000500000000001419360000000000000000000000000000000000000000000500000000001419350000000000000000000000000000000000000000000500000000001419340000000000000000000000000000000000000000000500000000001419320000000000000000000000000000000000000000000500000000001419310000000000000000000000000000000000000000000500000000001419300000000000000000000000000000000000000000000500000000001419290000000000000000000000000000000000000000000500000000001419270000000000000000000000000000000000000000000500000000001419260000000000000000000000000000000000000000000500000000001419250000000000000000000000000000000000000000000500000000001419230000000000000000000000000000000000000000000500000000001419220000000000000000000000000000000000000000000500000000001419200000000000000000000000000000000000000000000500000000001419190000000000000000000000000000000000000000000500000000001419170000000000000000000000000000000000000000000500000000001419160000000000000000000000000000000000000000000500000000001419140000000000000000000000000000000000000000000500000000001419130000000000000000000000000000000000000000000500000000001419110000000000000000000000000000000000000000000500000000001419090000000000000000000000000000000000000000000500000000001419080000000000000000000000000000000000000000000500000000001419060000000000000000000000000000000000000000000500000000001419040000000000000000000000000000000000000000000500000000001419020000000000000000000000000000000000000000000500000000001419000000000000000000000000000000000000000000000500000000001418990000000000000000000000000000000000000000000500000000001418970000000000000000000000000000000000000000000500000000001418950000000000000000000000000000000000000000000500000000001418930000000000000000000000000000000000000000000500000000001418910000000000000000000000000000000000000000000500000000001418890000000000000000000000000000000000000000000500000000001418870000000000000000000000000000000000000000000500000000001418840000000000000000000000000000000000000000000500000000001418820000000000000000000000000000000000000000000500000000001418800000000000000000000000000000000000000000000500000000001418780000000000000000000000000000000000000000000500000000001418760000000000000000000000000000000000000000000500000000001418740000000000000000000000000000000000000000000500000000001418710000000000000000000000000000000000000000000500000000001418690000000000000000000000000000000000000000000500000000001418670000000000000000000000000000000000000000000500000000001418640000000000000000000000000000000000000000000500000000001418620000000000000000000000000000000000000000000500000000001418590000000000000000000000000000000000000000000500000000001418570000000000000000000000000000000000000000000500000000001418540000000000000000000000000000000000000000000500000000001418520000000000000000000000000000000000000000000500000000001418490000000000000000000000000000000000000000000500000000001418470000000000000000000000000000000000000000000500000000001418440000000000000000000000000000000000000000000500000000001418420000000000000000000000000000000000000000000500000000001418390000000000000000000000000000000000000000000500000000001418360000000000000000000000000000000000000000000500000000001418330000000000000000000000000000000000000000000500000000001418310000000000000000000000000000000000000000000500000000001418280000000000000000000000000000000000000000000500000000001418250000000000000000000000000000000000000000000500000000001418220000000000000000000000000000000000000000000500000000001418190000000000000000000000000000000000000000000500000000001418170000000000000000000000000000000000000000000500000000001418140000000000000000000000000000000000000000000500000000001418110000000000000000000000000000000000000000000500000000001418080000000000000000000000000000000000000000000500000000001418050000000000000000000000000000000000000000000500000000001418020000000000000000000000000000000000000000000500000000001417990000000000000000000000000000000000000000000500000000001417960000000000000000000000000000000000000000000500000000001417920000000000000000000000000000000000000000000500000000001417890000000000000000000000000000000000000000000500000000001417860000000000000000000000000000000000000000000500000000001417830000000000000000000000000000000000000000000500000000001417800000000000000000000000000000000000000000000500000000001417760000000000000000000000000000000000000000000500000000001417730000000000000000000000000000000000000000000500000000001417700000000000000000000000000000000000000000000500000000001417660000000000000000000000000000000000000000000500000000001417630000000000000000000000000000000000000000000500000000001417600000000000000000000000000000000000000000000500000000001417560000000000000000000000000000000000000000000500000000001417530000000000000000000000000000000000000000000500000000001417490000000000000000000000000000000000000000000500000000001417460000000000000000000000000000000000000000000500000000001417420000000000000000000000000000000000000000000500000000001417390000000000000000000000000000000000000000000500000000001417350000000000000000000000000000000000000000000500000000001417320000000000000000000000000000000000000000000500000000001417280000000000000000000000000000000000000000000500000000001417240000000000000000000000000000000000000000000500000000001417210000000000000000000000000000000000000000000500000000001417170000000000000000000000000000000000000000000500000000001417130000000000000000000000000000000000000000000500000000001417100000000000000000000000000000000000000000000500000000001417060000000000000000000000000000000000000000000500000000001417020000000000000000000000000000000000000000000500000000001416980000000000000000000000000000000000000000000500000000001416940000000000000000000000000000000000000000000500000000001416900000000000000000000000000000000000000000000500000000001416860000000000000000000000000000000000000000000500000000001416830000000000000000000000000000000000000000000500000000001416790000000000000000000000000000000000000000000500000000001416750000000000000000000000000000000000000000000500000000001416710000000000000000000000000000000000000000000500000000001416670000000000000000000000000000000000000000000500000000001416620000000000000000000000000000000000000000000500000000001416580000000000000000000000000000000000000000000500000000001416540000000000000000000000000000000000000000000500000000001416500000000000000000000000000000000000000000000500000000001416460000000000000000000000000000000000000000000500000000001416420000000000000000000000000000000000000000000500000000001416380000000000000000000000000000000000000000000)
  pure val QD_3 = unpack(118, 500000000001417500000000000000000000000000000000000000000000500000000001417550000000000000000000000000000000000000000000500000000001417590000000000000000000000000000000000000000000500000000001417630000000000000000000000000000000000000000000500000000001417680000000000000000000000000000000000000000000500000000001417720000000000000000000000000000000000000000000500000000001417760000000000000000000000000000000000000000000500000000001417800000000000000000000000000000000000000000000500000000001417840000000000000000000000000000000000000000000500000000001417880000000000000000000000000000000000000000000500000000001417920000000000000000000000000000000000000000000500000000001417960000000000000000000000000000000000000000000500000000001418000000000000000000000000000000000000000000000500000000001418040000000000000000000000000000000000000000000500000000001418080000000000000000000000000000000000000000000500000000001418110000000000000000000000000000000000000000000500000000001418150000000000000000000000000000000000000000000500000000001418190000000000000000000000000000000000000000000500000000001418220000000000000000000000000000000000000000000500000000001418260000000000000000000000000000000000000000000500000000001418290000000000000000000000000000000000000000000500000000001418320000000000000000000000000000000000000000000500000000001418360000000000000000000000000000000000000000000500000000001418390000000000000000000000000000000000000000000500000000001418420000000000000000000000000000000000000000000500000000001418450000000000000000000000000000000000000000000500000000001418480000000000000000000000000000000000000000000500000000001418520000000000000000000000000000000000000000000500000000001418550000000000000000000000000000000000000000000500000000001418580000000000000000000000000000000000000000000500000000001418600000000000000000000000000000000000000000000500000000001418630000000000000000000000000000000000000000000500000000001418660000000000000000000000000000000000000000000500000000001418690000000000000000000000000000000000000000000500000000001418720000000000000000000000000000000000000000000500000000001418740000000000000000000000000000000000000000000500000000001418770000000000000000000000000000000000000000000500000000001418800000000000000000000000000000000000000000000500000000001418820000000000000000000000000000000000000000000500000000001418850000000000000000000000000000000000000000000500000000001418870000000000000000000000000000000000000000000500000000001418890000000000000000000000000000000000000000000500000000001418920000000000000000000000000000000000000000000500000000001418940000000000000000000000000000000000000000000500000000001418960000000000000000000000000000000000000000000500000000001418980000000000000000000000000000000000000000000500000000001419010000000000000000000000000000000000000000000500000000001419030000000000000000000000000000000000000000000500000000001419050000000000000000000000000000000000000000000500000000001419070000000000000000000000000000000000000000000500000000001419090000000000000000000000000000000000000000000500000000001419110000000000000000000000000000000000000000000500000000001419120000000000000000000000000000000000000000000500000000001419140000000000000000000000000000000000000000000500000000001419160000000000000000000000000000000000000000000500000000001419180000000000000000000000000000000000000000000500000000001419190000000000000000000000000000000000000000000500000000001419210000000000000000000000000000000000000000000500000000001419230000000000000000000000000000000000000000000500000000001419240000000000000000000000000000000000000000000500000000001419260000000000000000000000000000000000000000000500000000001419270000000000000000000000000000000000000000000500000000001419290000000000000000000000000000000000000000000500000000001419300000000000000000000000000000000000000000000500000000001419310000000000000000000000000000000000000000000500000000001419330000000000000000000000000000000000000000000500000000001419340000000000000000000000000000000000000000000500000000001419350000000000000000000000000000000000000000000500000000001419360000000000000000000000000000000000000000000500000000001419370000000000000000000000000000000000000000000500000000001419380000000000000000000000000000000000000000000500000000001419390000000000000000000000000000000000000000000500000000001419400000000000000000000000000000000000000000000500000000001419410000000000000000000000000000000000000000000500000000001419420000000000000000000000000000000000000000000500000000001419430000000000000000000000000000000000000000000500000000001419440000000000000000000000000000000000000000000500000000001419450000000000000000000000000000000000000000000500000000001419460000000000000000000000000000000000000000000500000000001419460000000000000000000000000000000000000000000500000000001419470000000000000000000000000000000000000000000500000000001419480000000000000000000000000000000000000000000500000000001419480000000000000000000000000000000000000000000500000000001419490000000000000000000000000000000000000000000500000000001419490000000000000000000000000000000000000000000500000000001419500000000000000000000000000000000000000000000500000000001419500000000000000000000000000000000000000000000500000000001419500000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419520000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419510000000000000000000000000000000000000000000500000000001419500000000000000000000000000000000000000000000500000000001419500000000000000000000000000000000000000000000500000000001419490000000000000000000000000000000000000000000500000000001419490000000000000000000000000000000000000000000500000000001419490000000000000000000000000000000000000000000500000000001419480000000000000000000000000000000000000000000500000000001419470000000000000000000000000000000000000000000500000000001419470000000000000000000000000000000000000000000500000000001419460000000000000000000000000000000000000000000500000000001419460000000000000000000000000000000000000000000500000000001419450000000000000000000000000000000000000000000500000000001419440000000000000000000000000000000000000000000)
  pure val QD_4 = unpack(118, 500000000001407260000000000000000000000000000000000000000000500000000001407400000000000000000000000000000000000000000000500000000001407530000000000000000000000000000000000000000000500000000001407670000000000000000000000000000000000000000000500000000001407810000000000000000000000000000000000000000000500000000001407940000000000000000000000000000000000000000000500000000001408070000000000000000000000000000000000000000000500000000001408200000000000000000000000000000000000000000000500000000001408330000000000000000000000000000000000000000000500000000001408460000000000000000000000000000000000000000000500000000001408590000000000000000000000000000000000000000000500000000001408720000000000000000000000000000000000000000000500000000001408850000000000000000000000000000000000000000000500000000001408970000000000000000000000000000000000000000000500000000001409100000000000000000000000000000000000000000000500000000001409220000000000000000000000000000000000000000000500000000001409340000000000000000000000000000000000000000000500000000001409460000000000000000000000000000000000000000000500000000001409580000000000000000000000000000000000000000000500000000001409700000000000000000000000000000000000000000000500000000001409820000000000000000000000000000000000000000000500000000001409940000000000000000000000000000000000000000000500000000001410060000000000000000000000000000000000000000000500000000001410170000000000000000000000000000000000000000000500000000001410290000000000000000000000000000000000000000000500000000001410400000000000000000000000000000000000000000000500000000001410510000000000000000000000000000000000000000000500000000001410620000000000000000000000000000000000000000000500000000001410740000000000000000000000000000000000000000000500000000001410850000000000000000000000000000000000000000000500000000001410950000000000000000000000000000000000000000000500000000001411060000000000000000000000000000000000000000000500000000001411170000000000000000000000000000000000000000000500000000001411280000000000000000000000000000000000000000000500000000001411380000000000000000000000000000000000000000000500000000001411490000000000000000000000000000000000000000000500000000001411590000000000000000000000000000000000000000000500000000001411690000000000000000000000000000000000000000000500000000001411800000000000000000000000000000000000000000000500000000001411900000000000000000000000000000000000000000000500000000001412000000000000000000000000000000000000000000000500000000001412100000000000000000000000000000000000000000000500000000001412190000000000000000000000000000000000000000000500000000001412290000000000000000000000000000000000000000000500000000001412390000000000000000000000000000000000000000000500000000001412480000000000000000000000000000000000000000000500000000001412580000000000000000000000000000000000000000000500000000001412670000000000000000000000000000000000000000000500000000001412770000000000000000000000000000000000000000000500000000001412860000000000000000000000000000000000000000000500000000001412950000000000000000000000000000000000000000000500000000001413040000000000000000000000000000000000000000000500000000001413130000000000000000000000000000000000000000000500000000001413220000000000000000000000000000000000000000000500000000001413310000000000000000000000000000000000000000000500000000001413400000000000000000000000000000000000000000000500000000001413490000000000000000000000000000000000000000000500000000001413570000000000000000000000000000000000000000000500000000001413660000000000000000000000000000000000000000000500000000001413740000000000000000000000000000000000000000000500000000001413830000000000000000000000000000000000000000000500000000001413910000000000000000000000000000000000000000000500000000001413990000000000000000000000000000000000000000000500000000001414070000000000000000000000000000000000000000000500000000001414160000000000000000000000000000000000000000000500000000001414240000000000000000000000000000000000000000000500000000001414310000000000000000000000000000000000000000000500000000001414390000000000000000000000000000000000000000000500000000001414470000000000000000000000000000000000000000000500000000001414550000000000000000000000000000000000000000000500000000001414620000000000000000000000000000000000000000000500000000001414700000000000000000000000000000000000000000000500000000001414780000000000000000000000000000000000000000000500000000001414850000000000000000000000000000000000000000000500000000001414920000000000000000000000000000000000000000000500000000001415000000000000000000000000000000000000000000000500000000001415070000000000000000000000000000000000000000000500000000001415140000000000000000000000000000000000000000000500000000001415210000000000000000000000000000000000000000000500000000001415280000000000000000000000000000000000000000000500000000001415350000000000000000000000000000000000000000000500000000001415420000000000000000000000000000000000000000000500000000001415490000000000000000000000000000000000000000000500000000001415550000000000000000000000000000000000000000000500000000001415620000000000000000000000000000000000000000000500000000001415690000000000000000000000000000000000000000000500000000001415750000000000000000000000000000000000000000000500000000001415820000000000000000000000000000000000000000000500000000001415880000000000000000000000000000000000000000000500000000001415940000000000000000000000000000000000000000000500000000001416000000000000000000000000000000000000000000000500000000001416070000000000000000000000000000000000000000000500000000001416130000000000000000000000000000000000000000000500000000001416190000000000000000000000000000000000000000000500000000001416250000000000000000000000000000000000000000000500000000001416310000000000000000000000000000000000000000000500000000001416370000000000000000000000000000000000000000000500000000001416420000000000000000000000000000000000000000000500000000001416480000000000000000000000000000000000000000000500000000001416540000000000000000000000000000000000000000000500000000001416590000000000000000000000000000000000000000000500000000001416650000000000000000000000000000000000000000000500000000001416710000000000000000000000000000000000000000000500000000001416760000000000000000000000000000000000000000000500000000001416810000000000000000000000000000000000000000000500000000001416870000000000000000000000000000000000000000000500000000001416920000000000000000000000000000000000000000000500000000001416970000000000000000000000000000000000000000000500000000001417020000000000000000000000000000000000000000000500000000001417070000000000000000000000000000000000000000000500000000001417120000000000000000000000000000000000000000000500000000001417170000000000000000000000000000000000000000000500000000001417220000000000000000000000000000000000000000000500000000001417270000000000000000000000000000000000000000000500000000001417320000000000000000000000000000000000000000000500000000001417360000000000000000000000000000000000000000000500000000001417410000000000000000000000000000000000000000000500000000001417460000000000000000000000000000000000000000000)
  pure val QD_5 = unpack(118, 500000000001380780000000000000000000000000000000000000000000500000000001381120000000000000000000000000000000000000000000500000000001381450000000000000000000000000000000000000000000500000000001381790000000000000000000000000000000000000000000500000000001382120000000000000000000000000000000000000000000500000000001382440000000000000000000000000000000000000000000500000000001382770000000000000000000000000000000000000000000500000000001383090000000000000000000000000000000000000000000500000000001383410000000000000000000000000000000000000000000500000000001383730000000000000000000000000000000000000000000500000000001384050000000000000000000000000000000000000000000500000000001384360000000000000000000000000000000000000000000500000000001384670000000000000000000000000000000000000000000500000000001384980000000000000000000000000000000000000000000500000000001385280000000000000000000000000000000000000000000500000000001385590000000000000000000000000000000000000000000500000000001385890000000000000000000000000000000000000000000500000000001386190000000000000000000000000000000000000000000500000000001386480000000000000000000000000000000000000000000500000000001386780000000000000000000000000000000000000000000500000000001387070000000000000000000000000000000000000000000500000000001387360000000000000000000000000000000000000000000500000000001387650000000000000000000000000000000000000000000500000000001387930000000000000000000000000000000000000000000500000000001388220000000000000000000000000000000000000000000500000000001388500000000000000000000000000000000000000000000500000000001388780000000000000000000000000000000000000000000500000000001389060000000000000000000000000000000000000000000500000000001389330000000000000000000000000000000000000000000500000000001389600000000000000000000000000000000000000000000500000000001389870000000000000000000000000000000000000000000500000000001390140000000000000000000000000000000000000000000500000000001390410000000000000000000000000000000000000000000500000000001390680000000000000000000000000000000000000000000500000000001390940000000000000000000000000000000000000000000500000000001391200000000000000000000000000000000000000000000500000000001391460000000000000000000000000000000000000000000500000000001391720000000000000000000000000000000000000000000500000000001391970000000000000000000000000000000000000000000500000000001392230000000000000000000000000000000000000000000500000000001392480000000000000000000000000000000000000000000500000000001392730000000000000000000000000000000000000000000500000000001392970000000000000000000000000000000000000000000500000000001393220000000000000000000000000000000000000000000500000000001393460000000000000000000000000000000000000000000500000000001393710000000000000000000000000000000000000000000500000000001393950000000000000000000000000000000000000000000500000000001394190000000000000000000000000000000000000000000500000000001394420000000000000000000000000000000000000000000500000000001394660000000000000000000000000000000000000000000500000000001394890000000000000000000000000000000000000000000500000000001395120000000000000000000000000000000000000000000500000000001395350000000000000000000000000000000000000000000500000000001395580000000000000000000000000000000000000000000500000000001395810000000000000000000000000000000000000000000500000000001396030000000000000000000000000000000000000000000500000000001396250000000000000000000000000000000000000000000500000000001396480000000000000000000000000000000000000000000500000000001396700000000000000000000000000000000000000000000500000000001396910000000000000000000000000000000000000000000500000000001397130000000000000000000000000000000000000000000500000000001397350000000000000000000000000000000000000000000500000000001397560000000000000000000000000000000000000000000500000000001397770000000000000000000000000000000000000000000500000000001397980000000000000000000000000000000000000000000500000000001398190000000000000000000000000000000000000000000500000000001398400000000000000000000000000000000000000000000500000000001398600000000000000000000000000000000000000000000500000000001398810000000000000000000000000000000000000000000500000000001399010000000000000000000000000000000000000000000500000000001399210000000000000000000000000000000000000000000500000000001399410000000000000000000000000000000000000000000500000000001399610000000000000000000000000000000000000000000500000000001399800000000000000000000000000000000000000000000500000000001400000000000000000000000000000000000000000000000500000000001400190000000000000000000000000000000000000000000500000000001400380000000000000000000000000000000000000000000500000000001400570000000000000000000000000000000000000000000500000000001400760000000000000000000000000000000000000000000500000000001400950000000000000000000000000000000000000000000500000000001401140000000000000000000000000000000000000000000500000000001401320000000000000000000000000000000000000000000500000000001401510000000000000000000000000000000000000000000500000000001401690000000000000000000000000000000000000000000500000000001401870000000000000000000000000000000000000000000500000000001402050000000000000000000000000000000000000000000500000000001402230000000000000000000000000000000000000000000500000000001402400000000000000000000000000000000000000000000500000000001402580000000000000000000000000000000000000000000500000000001402750000000000000000000000000000000000000000000500000000001402920000000000000000000000000000000000000000000500000000001403100000000000000000000000000000000000000000000500000000001403270000000000000000000000000000000000000000000500000000001403430000000000000000000000000000000000000000000500000000001403600000000000000000000000000000000000000000000500000000001403770000000000000000000000000000000000000000000500000000001403930000000000000000000000000000000000000000000500000000001404100000000000000000000000000000000000000000000500000000001404260000000000000000000000000000000000000000000500000000001404420000000000000000000000000000000000000000000500000000001404580000000000000000000000000000000000000000000500000000001404740000000000000000000000000000000000000000000500000000001404900000000000000000000000000000000000000000000500000000001405050000000000000000000000000000000000000000000500000000001405210000000000000000000000000000000000000000000500000000001405360000000000000000000000000000000000000000000500000000001405520000000000000000000000000000000000000000000500000000001405670000000000000000000000000000000000000000000500000000001405820000000000000000000000000000000000000000000500000000001405970000000000000000000000000000000000000000000500000000001406120000000000000000000000000000000000000000000500000000001406260000000000000000000000000000000000000000000500000000001406410000000000000000000000000000000000000000000500000000001406550000000000000000000000000000000000000000000500000000001406700000000000000000000000000000000000000000000500000000001406840000000000000000000000000000000000000000000500000000001406980000000000000000000000000000000000000000000500000000001407120000000000000000000000000000000000000000000)
  pure val QD_6 = unpack(118, 500000000001313350000000000000000000000000000000000000000000500000000001314270000000000000000000000000000000000000000000500000000001315180000000000000000000000000000000000000000000500000000001316080000000000000000000000000000000000000000000500000000001316970000000000000000000000000000000000000000000500000000001317860000000000000000000000000000000000000000000500000000001318740000000000000000000000000000000000000000000500000000001319600000000000000000000000000000000000000000000500000000001320460000000000000000000000000000000000000000000500000000001321310000000000000000000000000000000000000000000500000000001322160000000000000000000000000000000000000000000500000000001322990000000000000000000000000000000000000000000500000000001323820000000000000000000000000000000000000000000500000000001324640000000000000000000000000000000000000000000500000000001325450000000000000000000000000000000000000000000500000000001326250000000000000000000000000000000000000000000500000000001327050000000000000000000000000000000000000000000500000000001327840000000000000000000000000000000000000000000500000000001328620000000000000000000000000000000000000000000500000000001329400000000000000000000000000000000000000000000500000000001330160000000000000000000000000000000000000000000500000000001330920000000000000000000000000000000000000000000500000000001331680000000000000000000000000000000000000000000500000000001332420000000000000000000000000000000000000000000500000000001333160000000000000000000000000000000000000000000500000000001333900000000000000000000000000000000000000000000500000000001334620000000000000000000000000000000000000000000500000000001335340000000000000000000000000000000000000000000500000000001336060000000000000000000000000000000000000000000500000000001336760000000000000000000000000000000000000000000500000000001337470000000000000000000000000000000000000000000500000000001338160000000000000000000000000000000000000000000500000000001338850000000000000000000000000000000000000000000500000000001339530000000000000000000000000000000000000000000500000000001340210000000000000000000000000000000000000000000500000000001340880000000000000000000000000000000000000000000500000000001341540000000000000000000000000000000000000000000500000000001342200000000000000000000000000000000000000000000500000000001342850000000000000000000000000000000000000000000500000000001343500000000000000000000000000000000000000000000500000000001344140000000000000000000000000000000000000000000500000000001344780000000000000000000000000000000000000000000500000000001345410000000000000000000000000000000000000000000500000000001346030000000000000000000000000000000000000000000500000000001346650000000000000000000000000000000000000000000500000000001347260000000000000000000000000000000000000000000500000000001347870000000000000000000000000000000000000000000500000000001348480000000000000000000000000000000000000000000500000000001349070000000000000000000000000000000000000000000500000000001349670000000000000000000000000000000000000000000500000000001350260000000000000000000000000000000000000000000500000000001350840000000000000000000000000000000000000000000500000000001351420000000000000000000000000000000000000000000500000000001351990000000000000000000000000000000000000000000500000000001352560000000000000000000000000000000000000000000500000000001353120000000000000000000000000000000000000000000500000000001353680000000000000000000000000000000000000000000500000000001354240000000000000000000000000000000000000000000500000000001354790000000000000000000000000000000000000000000500000000001355330000000000000000000000000000000000000000000500000000001355870000000000000000000000000000000000000000000500000000001356410000000000000000000000000000000000000000000500000000001356940000000000000000000000000000000000000000000500000000001357470000000000000000000000000000000000000000000500000000001357990000000000000000000000000000000000000000000500000000001358510000000000000000000000000000000000000000000500000000001359020000000000000000000000000000000000000000000500000000001359530000000000000000000000000000000000000000000500000000001360040000000000000000000000000000000000000000000500000000001360540000000000000000000000000000000000000000000500000000001361030000000000000000000000000000000000000000000500000000001361530000000000000000000000000000000000000000000500000000001362020000000000000000000000000000000000000000000500000000001362500000000000000000000000000000000000000000000500000000001362980000000000000000000000000000000000000000000500000000001363460000000000000000000000000000000000000000000500000000001363940000000000000000000000000000000000000000000500000000001364410000000000000000000000000000000000000000000500000000001364870000000000000000000000000000000000000000000500000000001365330000000000000000000000000000000000000000000500000000001365790000000000000000000000000000000000000000000500000000001366250000000000000000000000000000000000000000000500000000001366700000000000000000000000000000000000000000000500000000001367150000000000000000000000000000000000000000000500000000001367590000000000000000000000000000000000000000000500000000001368030000000000000000000000000000000000000000000500000000001368470000000000000000000000000000000000000000000500000000001368900000000000000000000000000000000000000000000500000000001369330000000000000000000000000000000000000000000500000000001369760000000000000000000000000000000000000000000500000000001370180000000000000000000000000000000000000000000500000000001370600000000000000000000000000000000000000000000500000000001371020000000000000000000000000000000000000000000500000000001371430000000000000000000000000000000000000000000500000000001371840000000000000000000000000000000000000000000500000000001372250000000000000000000000000000000000000000000500000000001372650000000000000000000000000000000000000000000500000000001373050000000000000000000000000000000000000000000500000000001373450000000000000000000000000000000000000000000500000000001373840000000000000000000000000000000000000000000500000000001374240000000000000000000000000000000000000000000500000000001374620000000000000000000000000000000000000000000500000000001375010000000000000000000000000000000000000000000500000000001375390000000000000000000000000000000000000000000500000000001375770000000000000000000000000000000000000000000500000000001376150000000000000000000000000000000000000000000500000000001376520000000000000000000000000000000000000000000500000000001376890000000000000000000000000000000000000000000500000000001377260000000000000000000000000000000000000000000500000000001377620000000000000000000000000000000000000000000500000000001377980000000000000000000000000000000000000000000500000000001378340000000000000000000000000000000000000000000500000000001378700000000000000000000000000000000000000000000500000000001379050000000000000000000000000000000000000000000500000000001379400000000000000000000000000000000000000000000500000000001379750000000000000000000000000000000000000000000500000000001380100000000000000000000000000000000000000000000500000000001380440000000000000000000000000000000000000000000)
  pure val QD_7 = unpack(118, 500000000001071330000000000000000000000000000000000000000000500000000001075760000000000000000000000000000000000000000000500000000001080090000000000000000000000000000000000000000000500000000001084350000000000000000000000000000000000000000000500000000001088520000000000000000000000000000000000000000000500000000001092610000000000000000000000000000000000000000000500000000001096620000000000000000000000000000000000000000000500000000001100560000000000000000000000000000000000000000000500000000001104420000000000000000000000000000000000000000000500000000001108220000000000000000000000000000000000000000000500000000001111950000000000000000000000000000000000000000000500000000001115610000000000000000000000000000000000000000000500000000001119200000000000000000000000000000000000000000000500000000001122730000000000000000000000000000000000000000000500000000001126200000000000000000000000000000000000000000000500000000001129610000000000000000000000000000000000000000000500000000001132960000000000000000000000000000000000000000000500000000001136260000000000000000000000000000000000000000000500000000001139500000000000000000000000000000000000000000000500000000001142690000000000000000000000000000000000000000000500000000001145820000000000000000000000000000000000000000000500000000001148900000000000000000000000000000000000000000000500000000001151930000000000000000000000000000000000000000000500000000001154920000000000000000000000000000000000000000000500000000001157850000000000000000000000000000000000000000000500000000001160740000000000000000000000000000000000000000000500000000001163580000000000000000000000000000000000000000000500000000001166380000000000000000000000000000000000000000000500000000001169140000000000000000000000000000000000000000000500000000001171850000000000000000000000000000000000000000000500000000001174520000000000000000000000000000000000000000000500000000001177160000000000000000000000000000000000000000000500000000001179750000000000000000000000000000000000000000000500000000001182300000000000000000000000000000000000000000000500000000001184820000000000000000000000000000000000000000000500000000001187300000000000000000000000000000000000000000000500000000001189740000000000000000000000000000000000000000000500000000001192150000000000000000000000000000000000000000000500000000001194520000000000000000000000000000000000000000000500000000001196860000000000000000000000000000000000000000000500000000001199170000000000000000000000000000000000000000000500000000001201440000000000000000000000000000000000000000000500000000001203680000000000000000000000000000000000000000000500000000001205890000000000000000000000000000000000000000000500000000001208070000000000000000000000000000000000000000000500000000001210220000000000000000000000000000000000000000000500000000001212340000000000000000000000000000000000000000000500000000001214430000000000000000000000000000000000000000000500000000001216500000000000000000000000000000000000000000000500000000001218530000000000000000000000000000000000000000000500000000001220540000000000000000000000000000000000000000000500000000001222520000000000000000000000000000000000000000000500000000001224480000000000000000000000000000000000000000000500000000001226410000000000000000000000000000000000000000000500000000001228320000000000000000000000000000000000000000000500000000001230200000000000000000000000000000000000000000000500000000001232050000000000000000000000000000000000000000000500000000001233890000000000000000000000000000000000000000000500000000001235700000000000000000000000000000000000000000000500000000001237480000000000000000000000000000000000000000000500000000001239250000000000000000000000000000000000000000000500000000001240990000000000000000000000000000000000000000000500000000001242710000000000000000000000000000000000000000000500000000001244410000000000000000000000000000000000000000000500000000001246090000000000000000000000000000000000000000000500000000001247740000000000000000000000000000000000000000000500000000001249380000000000000000000000000000000000000000000500000000001251000000000000000000000000000000000000000000000500000000001252600000000000000000000000000000000000000000000500000000001254180000000000000000000000000000000000000000000500000000001255740000000000000000000000000000000000000000000500000000001257280000000000000000000000000000000000000000000500000000001258800000000000000000000000000000000000000000000500000000001260310000000000000000000000000000000000000000000500000000001261790000000000000000000000000000000000000000000500000000001263260000000000000000000000000000000000000000000500000000001264720000000000000000000000000000000000000000000500000000001266150000000000000000000000000000000000000000000500000000001267570000000000000000000000000000000000000000000500000000001268980000000000000000000000000000000000000000000500000000001270360000000000000000000000000000000000000000000500000000001271740000000000000000000000000000000000000000000500000000001273090000000000000000000000000000000000000000000500000000001274430000000000000000000000000000000000000000000500000000001275760000000000000000000000000000000000000000000500000000001277070000000000000000000000000000000000000000000500000000001278370000000000000000000000000000000000000000000500000000001279650000000000000000000000000000000000000000000500000000001280920000000000000000000000000000000000000000000500000000001282180000000000000000000000000000000000000000000500000000001283420000000000000000000000000000000000000000000500000000001284640000000000000000000000000000000000000000000500000000001285860000000000000000000000000000000000000000000500000000001287060000000000000000000000000000000000000000000500000000001288250000000000000000000000000000000000000000000500000000001289420000000000000000000000000000000000000000000500000000001290590000000000000000000000000000000000000000000500000000001291740000000000000000000000000000000000000000000500000000001292880000000000000000000000000000000000000000000500000000001294000000000000000000000000000000000000000000000500000000001295120000000000000000000000000000000000000000000500000000001296220000000000000000000000000000000000000000000500000000001297310000000000000000000000000000000000000000000500000000001298390000000000000000000000000000000000000000000500000000001299460000000000000000000000000000000000000000000500000000001300520000000000000000000000000000000000000000000500000000001301570000000000000000000000000000000000000000000500000000001302610000000000000000000000000000000000000000000500000000001303630000000000000000000000000000000000000000000500000000001304650000000000000000000000000000000000000000000500000000001305660000000000000000000000000000000000000000000500000000001306650000000000000000000000000000000000000000000500000000001307640000000000000000000000000000000000000000000500000000001308610000000000000000000000000000000000000000000500000000001309580000000000000000000000000000000000000000000500000000001310540000000000000000000000000000000000000000000500000000001311480000000000000000000000000000000000000000000500000000001312420000000000000000000000000000000000000000000)
  pure val QD_8 = unpack(59, 500000000000029080000000000000000000000000000000000000000000500000000000167620000000000000000000000000000000000000000000500000000000231310000000000000000000000000000000000000000000500000000000316180000000000000000000000000000000000000000000500000000000377349000000000000000000000000000000000000000000500000000000426389000000000000000000000000000000000000000000500000000000467763000000000000000000000000000000000000000000500000000000503750000000000000000000000000000000000000000000500000000000535699000000000000000000000000000000000000000000500000000000564485000000000000000000000000000000000000000000500000000000590712000000000000000000000000000000000000000000500000000000614819000000000000000000000000000000000000000000500000000000637134000000000000000000000000000000000000000000500000000000657914000000000000000000000000000000000000000000500000000000677358000000000000000000000000000000000000000000500000000000695629000000000000000000000000000000000000000000500000000000712861000000000000000000000000000000000000000000500000000000729164000000000000000000000000000000000000000000500000000000744631000000000000000000000000000000000000000000500000000000759343000000000000000000000000000000000000000000500000000000773366000000000000000000000000000000000000000000500000000000786760000000000000000000000000000000000000000000500000000000799576000000000000000000000000000000000000000000500000000000811860000000000000000000000000000000000000000000500000000000823651000000000000000000000000000000000000000000500000000000834985000000000000000000000000000000000000000000500000000000845893000000000000000000000000000000000000000000500000000000856403000000000000000000000000000000000000000000500000000000866542000000000000000000000000000000000000000000500000000000876332000000000000000000000000000000000000000000500000000000885795000000000000000000000000000000000000000000500000000000894949000000000000000000000000000000000000000000500000000000903811000000000000000000000000000000000000000000500000000000912399000000000000000000000000000000000000000000500000000000920725000000000000000000000000000000000000000000500000000000928805000000000000000000000000000000000000000000500000000000936650000000000000000000000000000000000000000000500000000000944272000000000000000000000000000000000000000000500000000000951682000000000000000000000000000000000000000000500000000000958889000000000000000000000000000000000000000000500000000000965903000000000000000000000000000000000000000000500000000000972732000000000000000000000000000000000000000000500000000000979385000000000000000000000000000000000000000000500000000000985869000000000000000000000000000000000000000000500000000000992191000000000000000000000000000000000000000000500000000000998358000000000000000000000000000000000000000000500000000001004380000000000000000000000000000000000000000000500000000001010250000000000000000000000000000000000000000000500000000001015990000000000000000000000000000000000000000000500000000001021590000000000000000000000000000000000000000000500000000001027070000000000000000000000000000000000000000000500000000001032430000000000000000000000000000000000000000000500000000001037660000000000000000000000000000000000000000000500000000001042780000000000000000000000000000000000000000000500000000001047800000000000000000000000000000000000000000000500000000001052700000000000000000000000000000000000000000000500000000001057510000000000000000000000000000000000000000000500000000001062210000000000000000000000000000000000000000000500000000001066820000000000000000000000000000000000000000000)
  pure val QD = List(QD_0, QD_1, QD_2, QD_3, QD_4, QD_5, QD_6, QD_7, QD_8)
  pure val QR2_0 = unpack(118, 500000000004234987542051341657202253756551678949150047541564500000000004270683126089578518861471562240658893299202311325499999999993682279953590344267351859994485685477653143213137500000000006000197059549044411731088459816599196088224836127499999999997316931808213478085723786166247917737993957442354500000000004732075707597043245373766875191729851935945394459499999999998754765361398348932781146332985162854262260979812500000000000248862846809561023501647792867618731015010686292500000000000249783251363406973212262495544362221677696275021499999999998752004147736811083649302224954932382274204213626500000000004742200157689348692190528604635908249225486870475499999999997279195221505794147588583356501434620823848304472500000000006141018956287474717455137969358353267479119911636499999999993156728953344306982590864766065152309259672048986500000000006232065230335297352181402966381037495482191892422499999999996915010125314503608683523368410697708811560381326500000000006107894268406688213084503559976171669271566582272499999999993653412801058743538978462391684615614102173289584500000000004278454527358337631001646873285365874319740259392500000000004232769089507905937014950115173920888618865672849499999999993790469114610038620938552666018950571204797049211500000000005605354452051939579230839220750276826561946130305499999999998788113077182203062138090450979942122547418429568499999999999242193239219248172216798975329954683248380151423500000000004243113965940804248994713647700239144459060964742499999999998785350897017534831804346433869088738915375989610500000000000615482445989056423787900616823405899879435076818499999999998752719319026239473044051098837287661566883703117500000000004373640277905985684035894987827443453853030110715499999999998752719569349817790812368949852938523020995854022500000000000615481444694743152714629212760802454062986473198499999999998785354651871209598329114199103851660727058253187500000000004243099947820418453968913990823790903028780514055499999999999242245556847116585795229837600984727157819690592499999999998787917824791115202850166658772270188339940723576500000000005606083143988422602804103527309934519482417415103499999999993787749599255194385933419231987991733730389616011500000000004242918458990799853462219544738098545596024120854500000000004240576564781606200217702589059614083885513900575499999999993794775281882775345666970099023445118861920276848500000000005580322307687292417114417014846605440666804992033499999999998883935487368054985875361841590133118470859755019499999999998883935742840487639384135618792862085449755987890500000000005580321541269994456588095683238418539730116293420499999999993794778092079534534263481648253463755629778838428500000000004240566090411867406357977723747726437750768352867500000000004242957546272995840304607456755630493367147750103499999999993787603724496149232423592449229751588780640646721500000000005606627555742407230001022746325363151510289663011499999999998785886052534221847572316565468795805178200701233499999999999249828234120705379709710991799453627776907532057500000000004214801010982956633588839467333389683714169170539499999999998890967721947468085934931138866987637366415785786500000000000221328101227171022671435977198659766820167686316500000000000223719873143847823379324952338373295352913468949499999999998883792406197437683811264213447847051768178437889500000000004241110502066401441375618193870238497574372779495499999999999151765585536956550686263011071198957934330444131499999999999151827155785772355879329761844965670688305443982500000000004240925791319954025796417941548938359312447779941499999999998884469678934411540934998471959280892061903436253500000000000221195492942399810463588170613938072439938475047500000000000230748349295989217210648845584966818178342663558499999999998855811109873643320693816447046194654846690870722500000000004346007211209437500014085366230254562434893853554499999999998760160045288606679249842088032787095413733715063500000000000613352607636135782986546281638597055910171286196499999999998786429524166850188803972785412824680945581140154500000000004240929295696463461797562576710104220307504153189499999999999249853293047295964005776907746758437824402247091499999999998759657532114352682179329792302862028394886858445500000000005711516578495293307276903923041793448596050319127499999999993394276153904474088713054515529964177220911865047500000000005711378805886810337870878014838349842520302220685499999999998760208622548284559803433425116636452697879252214499999999999247786703920051422915388284695104346688180770460500000000004248644561771509748535013436102946160549397665947499999999998757635048993909582944557970893111011114228565752500000000000720815242252851919686754680324609794993688071045499999999998359103981994682738308423307808449808911019150068500000000005842768829768417127079552088441590969362235328682499999999993269820698931648753373368338425186313640039535204500000000006077948374504987859426974557857663776077606530502499999999997418385803048399808918733430144158582049534342787500000000004248508413301412904898091721565701895724256098349500000000000587580543745948571488899683593033835053441263816499999999993401169411714792809146309544062162764061978846388500000000010807741809394880191925862140158315108698643350633499999999993367863350705686423150241895304576801143447751080500000000000720804787782374115473170278623377686727565645046500000000003748917498164817114957076990201912451946289668735499999999999283525219558357424698521760568972505487275680015499999999999116981623601753186248835967522197526104607611205500000000004248548286034629830306134369342237390094293875166499999999998888825232259727492526626555108852913518216888131500000000000196150784926460199587359410222350955832838572311500000000000326571628034431709123935804001743263150428822624499999999998497562702935812963916897373770675991565446137192500000000005683177560222316435208474700915552770587786628608499999999993769727056174921295249203822567112926083407348378500000000004237914215077998383794710008815995525078583977882500000000004278616083513085169571956142168904973602256740094499999999993647621450869660937917465422508384580512389061741500000000006130898113008271078758182167797556704348187012942499999999996828786097097254747049805906301388602094862886492500000000006553957498602709933042594206996888887272361441092499999999991955383908491905520779817265711055848815691349141500000000010624506867429667983838136730158887717464873162345499999999995546588621789422543867635813653393281324816001478500000000007189138645412641840691320015227539157235862831743499999999990696856796560010093367084125436450089731732671551500000000030023434168347317785840343483026660483837206482054499999999829209406530050718763271541942456907974919441400234500000000278138939711449807161073488747145707616485027917010499999999823234834624150052592434503068960261559140446931724500000000083921721791949982469188498977013246146953184356092499999999910000000000000000000000000000000000000000000000000499999999736078278208050017530811501022986753853046815643908)
  pure val QR2_1 = unpack(118, 500000000002677386161564273848591241809475548116225317412423499999999999235035997250809158276659549353066833531257140057500000000000382469849432489518302119993112184549649654027350499999999999235084605019232768514860478198194967870126750542500000000002677191730490579407638438094095035578869838970482500000000005056148473018449600931387145421662716650517367531499999999992098214377435622188636013324218313554528091559396500000000011550994017239061644524559557705083065237116394886499999999991697809553608131233265748444961354184523442861059500000000006657767768328413422412446662449500196669112160876499999999996671119373078215077084464905240645028800108495437500000000006657754739358726269249693716587919688130453857376499999999991697861669486879845916760228407676218678076075057500000000011550798582693754347083265369781375437157241842395499999999992098943999738102765750178292466822032692956555364500000000005053425418353834589916021460351336432070931936148500000000002687354326846558874585735866127832239023315700044499999999999197157274259929911741035075137334611835805263678500000000000524016576113721478450123833322829313633463245245499999999998706776421285184174458469591571348133630341755343500000000004648877738745541823715997800391778151845169733383499999999997697712623732648530677539206861539258988979311124500000000004560271766323864053573845372162064812198913022121499999999999061200310971895255027079304490201492215368600392499999999999194926989788554926317837409877129218939612576309500000000004159091729873885039701571056001281632026181094371499999999999168706090715904914875878366117744252955663046208499999999999166083907262495300794915479527741356151166720798500000000004166958280234113881944459715771290322439670070601499999999999166082971801049171427245657387097354090152996798499999999999168709832561689432346557654680320261199717942208500000000004159077697952193099186523723891621601110975234372499999999999194979375629538170907347449753193334356381120306499999999999061004799529654217184086477095605061463500284405500000000004561001426251844960356306641864386419789617742074499999999997694989495462965941390686955446849259378028747299500000000004659040591896291274080945536348216542698267268729499999999998668848136951868962285530899160284569828902177783500000000000665566860296232876776930867010645177986124020137499999999998668884421863199530606745632797134718226601741667500000000004658895452250969000796086601800815949107469013193499999999997695533769132924466208907959999601485343522205561500000000004558969471217333134368281558200778109518442164563499999999999068588345997742996317965807197286076582709136186499999999999166677144791694880359855213010077584150721290693500000000004264703074835477482242613340762403586814405701040499999999998774510555866395190669691423940308068591655905145500000000000637254701698941755078620963476364138818970678380499999999998676470637337837789015824722154235376132461381333500000000004656862748949707088858080147906694356651183796286499999999997696078366863333855551854686218987197262803433524500000000004558823783596957488934501107217356854297602469618499999999999068626498748836188710140884911585385546786688005499999999999166670221407697756224935353136301603515250778363500000000004264692615620372786390117702543208200392210198542499999999998774559316110811098214593836690865594915908427469500000000000637070119936382820751506950693329419944156091583499999999998677160204143657618779378360535816725307467206199500000000004654289063488986704130979607163403678825975083621499999999997705683541900395564696703210810568559388632459316500000000004522976768909431037082207549594322083619495079115499999999999202409382461880286974466590812143106133387224223499999999998667385701243047815019926087157105491846956023991500000000006128047812565928452945829060559434926478788679811499999999991820423048493238373196757670605154802237889256764500000000011590259993461118054267140257019945864569654293133499999999991818536977662289409734681301315061739483493570704500000000006135592095889724306794134537719807177496371424051499999999998639094638778813363088780547805709550531020733093499999999999308029348995022240850743271057354620379545643579500000000004128787965241097673508246367964871967950796692592499999999999176818790040587065116271257083157507817267586052499999999999163936874596554066026668603702498000780132963198500000000004167433711573196670777054328106850489062200561154499999999999166328279110659250865114083870100042971064792184499999999999167253171984166325762489336412749339053540270109500000000004164659032952675446084928570478902600814774127381499999999999174110696205131889897796381671640257687363220368499999999999138898182226796994323885902834536368435772991146500000000004270296574887680132806660006990214268569544815048499999999998779915518222482474449474069204606557286047748663500000000000610041352222389969395443716191359502286264190299499999999998779919072887957647968751066029955433568895490139500000000004270282356225779438729552019688818763438153849143499999999999138951502208924597113040855214769512678489113287499999999999173911634938522172818284559452103185847889697709500000000004165401958036986711613820906976817743929952095877499999999999164480532913530980726431812640625838432301918784499999999999176675910308889365480451842460678902340840228987500000000004128815825850911557351760817516658552204337165268499999999999308060786287464405112504887472686888841811109939499999999998638941028999230822198219632592593892428418394975500000000006136175097715612306094616582156937541444515310161499999999991816358580138319953423314038779655941793520364380500000000011598390581731107880212127262724438691381403232319499999999991790079092937248525728176910322589292680866706343500000000006241293046519898016875165095985204137895129942307499999999998244748720983159406771162705736594155738613524429500000000000779712069547464356040184081068419239150415959977499999999998636403000826983169068100969989728887659722635661500000000004674675927144602967687412038972665210210693497377499999999997664893290594604960182250874119610271497503374831500000000004665750910476977191583584464548893703799293003300499999999998672103067497486273483411267684814913305324611970500000000000645836819533077714482770464711846642979408548819499999999998744549654370202868585506873467798514777041192752500000000004375964562986110811175202041416959297912426680172499999999998751592093685353886713684960864364293573252086561500000000000617667062272473641970058115125583527794564973584499999999998777739657224751545406082578633301595248488019102500000000004271374308828520176405611570341210091211482950007499999999999136763107461167748971471140001858039905580180872499999999999181573261326808827708503869651357749166196326507500000000004136943847231596940194513381392710963429634513101499999999999270651349746803411513442604777798397115265621091499999999998780450753781189413751716199496095448109303002537500000000005607545635128438933479692597237819810447522368761499999999993789366705705054852329513411552625310100607522419)
  pure val QR2_2 = unpack(118, 499999999999396021612247905730877684380908434593968060452636499999999999393197627101756843084656488425090337588741813791500000000003031187879345066896783689665391204055676972292200500000000003482050855517975569780584850010093439703369017409499999999998040608698583030824093970934568422185509551638165500000000004355514350149901133843531411716217818258424429930499999999999537333900817364640531903418566706541456750642114499999999997495150046580640304028854914016956015914573001614500000000010482065912860074143352676925365469394884957351431499999999990576586301979063122560437384521166404545597592664500000000012211588879223673366405573536549864986932652277914499999999990577058181126243411817268469279373647723793295681500000000010480178396271352986325352586332640422172174539362499999999997502228233788344642881321185390064663587508546871499999999999510908668575268442149362672107100923477791273152500000000004454137091910581588521228126181531642501326360520499999999997672542963782405203765724823166772506516903284769500000000004855691052959797596415872581151378331431060500405499999999997904692824378404410570784852227714167758854713610500000000003525537649526584761300988009937764997533520645155500000000002993156577515256544225263108021225842107062705771499999999999501836040412389061797959557977331634038228531762499999999998999499260835187208582898660069447621740023167181500000000004500166916246862103870445801744877879001678799513499999999997999833074177364375935318132951040862253261634765500000000003500500787043680392388281666450958671985274661427500000000002998163777647914054511555201245124449805639719529499999999999506844102364663389565497528568543528792166460459499999999998974459812893432387226454684480701435025694438635500000000004595316646061607061528683733508650731105055785002499999999997644273602860139366658810381484695640554082421356500000000004827588942497835471836074740552566706678614529573499999999998045370627148518745996890656305037532731459460351500000000002990928548908089544176362634227283162395547629023500000000004990915177219123077297658806785829817686350023558499999999992045410742215418146633002138629397566859052276746500000000011827441853919204336170332638696579914877440869460499999999990644821842107764508685667306584282773631184245414500000000010593270777649737629086998134966288990597822148882499999999996982095047293284974966340153550561263977527159057500000000001478349033177122471047641250831465953492069214891499999999997104508819998225140843094843123574922054195981378500000000010103615686829976965579979376674234358291146859596499999999992481028432681866996836987650179487644781216580239500000000004972270582442555047072070022607815062583986819447500000000002629889237547912814874732259389252104882836141974499999999999508172467365793693429000939835176517884668612657499999999999337420892988912411409263981270041823578489407397500000000003142143960678556660933943135084656187801373757757500000000003094003264296860944854963478391333425216015561577499999999999481842982133999559646202951350010111334563995935499999999998978624807167140816560224716208626129445728454684500000000004603657789197437174112898183815485370882522185331499999999997606744036043110486988182548529432387024182803994500000000004969366066630120877934371622066785081020746598693499999999997515791697436406001274330963203427288892830801235500000000004967467143624255116968304525119505763407930196368499999999997614339728066573530852450936318549657475448413292500000000004575173944109450759621891729606295606690276150463499999999999084964495495623430659982145256267915763446984857499999999999084968073908055517738179689368632730255935910108500000000004575163208872154498387299097269201163212809374711499999999997614379090603326488712623921554562616892826591050500000000004967320428714539546762205216512548369215884261090499999999997516339194538515324238555212395243906243636364589500000000004967322793131399156283573933906476005809570280554499999999997614369632935888050627149051978852070518082513195500000000004575198675125048641207829858178115712118099666668499999999999084835666563917384541531515308685081009518820135499999999999085458658619281820626044080587143963843825052792500000000004573329698958955332954292162342739063615180968698499999999997621222545544896847556787270041899781695451072417500000000004941780118861457276818558757489661809603014741633499999999997611656979009274045168977699999452979892489961050500000000004611591965101446542505530442512526270827025414168499999999998941975160584939784808900529950441936799408382278499999999999620507392558794318258867437685705981975341056719500000000002575995269179882942155629719306734135299227390845500000000005075511530721673913118613685087357476827749379902499999999992121958607933421405369915540343835957389775089546500000000011436654037544640465401724153537298693613150261915499999999992131425241888016733023187845506969268157623862795500000000005037644994903292602505524464434824233756354286906500000000002717994778498812856954714296753733796816958989579499999999999090375891101455969675618348550240578975809754776500000000000920501657095363264342812309045303887279801991317499999999997227617480517090972953132415268543871904982279957500000000010169028420836272843844658029880520625100268888855499999999992096268836137817651668235465209373627693942164624500000000006445896234612456549482400109281984864123962452650499999999997120146225412356150402164097662686915810208024775500000000005073518863738118848908943500067267472635205448248499999999997585778319635168453962061902068243193648970182231500000000004583367857721207335242808891659759752768913822827499999999999080750249480002205066702531292717795275374526460499999999999093631144358783844490380983169369066129588071332500000000004544725173084862416971773536029805940206273188211499999999997727468163301766487622524872711407173045319175822500000000004545402173708071632538126973124565367612450108500499999999999090923141865946982224967234790331356504880390177499999999999090905258828140438562004087714109206368028330791500000000004545455822821491263527016414353231818023006286657499999999997727271449885894507329930254872963521539946522580500000000004545458377634930707153262566154914095817207623022499999999999090895039574382664057019480507380095191222985332499999999999090961464067538636618659511815565523417900435649500000000004545259104155462789468342472230357811137175272072499999999997728002119310610205507970599263003232033398476064500000000004542732418602096388499775130717629260729230823672499999999999101068206281004240492928877866479725049678229247499999999999052994756273886649528509357816451839072056259338500000000004686952768623449161393033690867712918662096733400499999999997199194169232316704899355878712696486279556807063500000000006516270554447284019009542794281501136219676038348499999999991735723612978547219062472944161298968841739039545500000000011540834993638527104740565429073302988413367803471499999999992100936412467344361975265339545489077504789746569500000000005055419356492095447358373212744740701567473210252)
  pure val QR2_3 = unpack(118, 500000000002667077919672069113680225717720071843336591735244500000000002164660168299540908253819361517225057748317455860500000000003674281407129767253304496836211027925670138441314499999999998138214203181390078528193293638663239571128778882500000000003772861780144672432582729989234319116045346443158500000000001770338676239920191140886749424060296247485448485500000000004145783514895646802853723013069439698964711762901499999999996646527264177492597444221198298180907893667499912500000000009268107428394382807369392193737836669460618237452499999999996281043022244976173078210026750472414263859550280500000000005607720482625712500317767699260273673483943561429499999999996288075047252173825650719176208432891800366204003500000000009239979328365592197079355595905994759314591622560499999999996752007639285457386031858440167588070941267305758500000000003751990114492578258793210643423652956920339154407500000000003240031902744229578795298986137800101377376076614499999999998287882274530503426025593412025146637570156539139500000000003608438999133756717102327365761613348341997766832500000000002278361728934469705565097124928399969061852393533500000000002278114085128364460637284134524786775410592659034500000000003609181930552072451885766336972452929295776970330499999999998285158192663345731819650517585401507406299459646500000000003250185298794544620835631592685941041079025191085500000000003714100612158475784837823111670834328277599776015499999999996893412252571552239813075960630721645810575704857500000000008712250377555315255909873045806279088480097404558499999999998257586237207186736547431856144162000269034676911499999999998257404673615937797900399529617072910443763887798500000000008712795068329062071850970025387546357955909771895499999999996891415053067813914695720368832741657732597024620500000000003721544719399682269366148499281487011113702129624500000000003222406069333457007839685634041310297812594456883499999999998388831003266489699275108964553271797635920042843500000000003222269917600584195059878507745602511643725371746500000000003722089326331173520485377004464318155789178470173499999999996889372777074721722998613474397124865199560747563500000000008720419565369939587520169097947182383412578539575499999999998228948961445519926920710133814145601150125094136499999999998363784588847980704796990366796235211986921083880500000000008315912683162557253891328399000913550902190570345499999999998372564678501790279637696037200110584404316634742499999999998193828602830281627557887452198644111480542890689500000000008852120910177083210130754154005312969673511802502499999999996397687756461385531919095931780104009825409899303500000000005557128063977374662192862118874270991024848600286499999999996373799987629115819309455592722812026075195699553500000000008947671985506162060569315510234480904674368601500499999999997835512070346235938413282366339264355227329894445499999999999710279733108894185777555024408461674416311820721500000000003323368997218187318476497536026888947107422822673500000000001996244278018356540316454831483982537153996888587500000000003691653890708386520257683138037180904276589622978499999999998237140159148097378652812616367293845739644619500500000000003359785472699223965131066396493643712764831899022500000000003323717950055006760822921797658131303201027784412499999999998345342727080748991577246412873831074431056963330500000000003294911141621997272868092550846544399074744362267500000000003475012706431261916950383383739991329269965587601499999999997805038032652955059330373914193490283845393287328500000000005304835162956917845728120959486047535348461263089499999999995975621315519373557757142247862319574760761660318500000000010792679574965587923243310049064674165608492095639499999999990853660384618274749269617555878983762805269957126500000000010792678886561313079678219727419390783170428075858499999999995975624069136472932017503534443453104513017739441500000000005304824836892795192251766134806796798777500966377499999999997805076583292346298975431926329359700376978395050500000000003474868829937819611846506159875764399714585453421500000000003295448096956375253638543434167582700764679791265499999999998343338782236679373599320103453904797226695381517500000000003331196774096907251964176152016798110328538682665500000000003331874121375691618543975288478902761459149887823499999999998341306740400326273859922694067590843834861766043500000000003302898917023003286016333935250733863201403048007500000000003447097591507660582074741564929473703359526041931499999999997908710716946354385684699805031371323360492784269500000000004918059540706921875186459214945041003198502820991499999999997419051120225958113569463335188464663845495931765500000000005405735978389245670535687444301100341419513451948499999999995958004966217059204287786887607133970476450260444500000000010762244156742517512313165005270363776674685506276499999999990993018406812870746459553091311410922824807714450500000000010265682216005999501848622629483992532026083635923499999999997944252729163131246145956390752618949070857741859499999999997957306867341475513567551807505531671690485396640500000000010226519801470966699583836379225254364167200671582499999999991136613926774657688097102675593450871640711917034500000000010227024491430402548027752918400942149269951660283499999999997955288107503732119791885650802780531279481441834499999999997951823078554668972804704478387935725612122572380500000000010237419578277591988989296435645476566272028268644499999999991098498608334963071238109779030158009299764353043500000000010368585988382555726058264448233891396528914319182499999999997427157438134814024528832428034276404584578370227499999999999922784259078188175826405839629002985132772199908500000000002881705525552433272165544213449711654884332830141500000000003550393638712078735511417306572150395329896479528499999999997916719919599251785788786560261686763796081251746500000000004782726682890914121333436452381102549485778513488499999999997952373348837091728877467630213903038260804694303500000000003407779921760718963156693026763285297471002709302500000000003416506964120032418495760262732955771855184468491499999999997926192221759151362860265922304891615108259416733500000000004878724148843362130063176048047477767711777864576499999999997558911182867400116887029885505197314044629124963500000000004885631119687037402388704409931732976109705635572499999999997898564338384450273558152474767870781516548332749500000000003520111526775161503378685690996783897824101033431500000000003020989554514903712927104761244993627187047533527499999999999395930255165223644912895264023241593427708832461499999999999395289424824201707421314182662039999102117136628500000000003022912045537969525401848005328598410163822621026500000000003513062393023920190971293796023566360242592379269499999999997924838382366349710712976810577136148865807861898500000000004787584077510680966176798961667889044294176173141499999999997924825307590926424579827342751307673957487445540500000000003513114692125613335503891667326880259875874044698500000000003022715923906620233404605987941171286539016375667)
  pure val QR2_4 = unpack(118, 500000000007060854600903366564172141939951824290333049831247500000000000195527042112055321811817422645566813851955854887500000000007157037230648412148580588369465908454259126749205500000000001176324035294296083865829099490799369111537148294500000000003137666628174403515956095232570894069294724657619500000000001273009452008089852309789970225624353709564221231500000000006770295563793237074804744886526608515867018457457500000000001645808292818961848471230483667941582822361948941500000000001646471264930915531310333178801625152843533746780500000000006768306647457376026287436801125557805803503063938500000000001280302145239580363539919616696143623942453997466500000000003110484771584302519552884732089867698426680946197500000000001277758768423209558248541454944385582350822217747500000000006778480154722859247452949448132589972170030182814500000000001608320612685353451939660752525254528969057050996500000000001788237394535726944788407541766391911953741613200500000000006238729809171738768906709080409177823215976496203500000000003256843368777317979584756136596896795182352401987499999999995733896715718989312754266373203234996054613895848500000000013807569768346724769398178370590163220599192014621499999999994035824210894111609653020144436112121548618045668500000000010049133388076828791989741051665388293206335802709499999999995767642236798573222388015648902334705626038743498500000000006880297664728878318458196352725272884289509223299500000000006711167104285913503779198940196573757215924363306499999999996275033918127467666425007886488432086846793323477500000000008188697223204215830520769513849697895396902342787500000000000970177189055669011491914058112776331565597305374500000000002930594020573108123511574253699196778340708435718500000000002307446728651898494461788927090436555071568951754500000000002839619064819297898641270037939057001373015757264500000000001334077012070909910973130921153335439436368019189500000000006824072886897062457466206277447601240881512165979500000000001369631440340840259162043969056259597037583316896500000000002697401351739576505885617846327360370968154566436500000000002840763152700853717295484645634298919089798417358500000000000939546037457008624932443571135443952672651764131500000000008401052697471111782974741069823925270219594526118499999999995456243172658544243168592149568854966448970131396500000000009773974611894711244350890331900654863984524948299499999999995447858379762610779427846522828525577612930075409500000000008434591869054845637937723576785242825563754750067500000000000813774144018006668821259170030503120132050924325500000000003310311554873127686777239743092744693908041552633500000000000944979636489482584069781857598518104235782865143500000000007909769899168941976943632826513182889148826986796499999999997415940766834749508155686836348750339168909187671500000000002426467033492059990433619828091815754175536262518500000000007878191099197010530109833851283986644128945762257499999999996060768569719897889127044766772237669308680688454500000000007878734621923397913381987081627062678636331483929500000000002424292942586510457345006906719511616145993375831499999999997424093607730560257237985291494890856779695012746500000000007879332626491248513703051927300924956735226573185500000000001058575886304445687949806999301409316279398694515500000000002886363828290968734497720075493437778147178648756500000000002395968800531679374059312698724839571131886710462500000000002529760969582313769265029129607203937325274509396500000000002484987321139065548880570782846344679567015251953500000000002530289745861424035212687739007417344406664482791500000000002393853695415238310268678261123985942806326816884500000000002894295472477622723712599216496638884368028249675500000000001028964414674270794880924872889458519721560184417500000000007989846868825294096763701291945527036745731012659499999999997011648110024552818064269959328433333295515764949500000000003963560691076494630979218870740739630072205927547500000000002134109125669468658018854557708608146415660524863500000000002500002806245630736945362898424827784265151973003500000000002865879649348008394199693848592080716523731583127500000000001036478596362335686255861707206849349639921694490500000000007988205965202648860776859322580521884916581638915499999999997010697542827068870636701002471063110693751749852500000000003969003863489075656676336667535225672308411361677500000000002113287003216628502657952327388034200072602803439500000000002577848123644410332691854022912637527401177424567500000000002575320502205730166574631580961415690322687498291500000000002120869867532669001009619653241699711308072582268500000000003941200027663593829386889806071785464445022172638499999999997114330021812955681442821122471158430911838727180500000000007601479885084583444841825704043580811907622918641500000000002479750437848710539189876061354518321457669598256499999999997479518363520574398398670050538345902261698688334500000000007602176108068991867215443736492098069495535648409500000000002111777204203458132739555003493261819756158718030499999999998950715075117175601826336249534854651479829479469500000000002085362495327839459955099998367319574324523364093500000000007707834943571466558353263756995867051222077064160499999999997083297730386294306631844973649212220787168379268500000000003958974134883356215119356348407284065629249418768500000000002080805730080280832890729632721651516695833945658500000000002717802944795520453317725120706109867587414798599500000000002047982490737637353838369884453909012954506859947500000000004090267092253930131328795341478254080594557761611499999999996590949140246642120846448749633074664667262093607500000000009545936346759501385285409659989447260736393863962499999999995225305472715352338011912610409136292387162450546500000000009552841762379089262666939898374007569714956333854499999999996563327477768290611320327796094833428753012214037500000000004193848326547748292051748917246658715272994809998500000000001661279216040716220472676534918531710155008545971500000000004161034809289386826057544943079214444106971006118499999999996694581546801736475297143692764610513417107429558500000000009060639003503667272753880285862343502224599275650499999999997062862439183594433687335163786015477684495467841500000000002687911239761954992496779058993594587037418852984500000000007185492601768585596325548600239606174165829120222499999999998570118353163702622201026540047980716299264666126499999999998534033985576603914870345239568470960637112215272500000000007293745704529881718317592501678135441152286472787500000000002290983196303869211859284753718987274753741893581499999999998542321510254641434245268483445915459832745952889500000000003539730762677565051159641312497350885915274294864500000000002298755439035098361116166266564680996506156867654500000000002265247481182041504375693621243925128060098234519500000000003640254636236735621381059248459618491253450194269499999999998173733973871016010100069384917600906926100988406500000000003664809468279200338218663211869977881042145852108500000000002167028153012182637025277767602487568905315603162)
  pure val QR2_5 = unpack(118, 500000000004781963107411029210600810444948974263034869978409500000000002560940153689542366691313454120399822791635778948500000000014974276277830801322633935738569426445798586905800499999999997541954734987252342772943591601894394014016597854500000000009857904782220189306274289895022995978145346702784500000000008026426136131990432129896828306121693404596591010500000000003036390673251848965206122791752517248236266933175500000000009828011170860613707045612004683809313650335676291500000000002651564643305696206611429189512245497162390361662500000000009565730255916601466508671237267208697700102877061500000000004085514333027897927353885861418919712037198130095500000000004092212411971806824075785317057112454151104602560500000000009545636019084874776342972870352630471358383459666500000000002725243511688694070552323201532365660415361558778500000000009553389934160348941447734323517906886980170305224500000000004061196751669910163656739504396006791663957220326500000000004201823059160010403925307658898065946364000813473500000000009131511011690048220642029860011729422880039525784500000000004272132894079796713506572901055016362115841083391500000000003779957411990764925331678535768205128656596140650500000000010608037457957143585166712955872163123257774354008499999999998787892756180660734001469640743142378312306443320500000000009240391517320213478827408481155267363492999872714500000000009250541174538485350688896434635788167715694065826499999999998757443784525845118417005780301579965644223863984500000000010719683687358134175643080444157891969707410478239500000000003363821466041618179010672443066852155526134223061500000000005825030448475393108314229783574699408188052629517500000000003336056740056809387732408422634350211721655258870500000000010830742591297369340756136525887899744925326335004499999999998340972894753713249243045473814050808577039401115500000000010805365829687777662271681578855897020766516060534500000000003437563786495176101670228210762361108356896356747500000000005444379024331517931047405578094658545805898512478500000000004784920116178752174140149476859004708419509593342500000000005415940510953473372391996514469322620516063114156500000000003551317840007354336291864465263704809516237950035500000000010378788129017109282440545624475858141418985085704499999999999933529643924208533945953036832862624807821707149500000000004887093295286056581775642228192691359349728085699500000000010518097174931565138951478050396371937793265950055499999999998040518004987682862418445570221820889477208114082500000000012319830805117703411374739668716344504297901593617499999999997680158774541503492082595754912801093331185511452500000000011959534096716282620294877311632451122377356360577499999999999481704838593366026737894998557394417159389046240500000000005113646548910253272753542694137971208985087454462500000000010063708965765620882247934224890720746900261135913499999999999631517588027263198254720406299145803413868001885500000000006410220682125326324733184149912696039444266856547500000000004727599683471431502812542994050070038809064571929500000000004679380583988947664016643873887023805319474855739500000000006554877980572777841120881510401834739913036005115499999999999101107493719940971499830084505637235028381123802500000000012040692044547458272879798151575616319973439499676499999999997736124328090225936980977309191897485077860877492500000000012014810643091637979196292611656793739715116990354499999999999204633099543222146233852244180927556061671161092500000000006166656958735473435868298411619496036038198365279500000000006128739065514884110292954109341088299785535377792499999999999318386779204990122959885151016150764819660123555500000000011597713817665155397867505286594308640935824127990499999999999290757950134388285570093702606614671437043364487500000000006239254381797291459852119902979232673316002414064500000000005752224522676445875021426685476454635298946979257500000000000751847527496925040062173355114948785488209668907500000000006240385367335853964729879894063750222748214345116500000000004286611003159659101018307068630050323518932950628500000000006613170620025509631196891831416048483176053852370499999999999260706516738302374194125605705755743776851639891500000000011344003313021280872026605745760928541716539588065500000000000363280231176574137699451411250530089356990007850500000000002202875762272422577175588609236951100855500380537500000000005825216719733735553598194151801665507221008470002500000000004496257358792635208431634783556386870260465739454500000000006189753845095723612675266713972787011737128572181500000000000744727260824470340867298360552465082791019971823500000000005831337111606395023855539843817352657098791540528500000000005929924292749949563710542264178124288813813866066500000000000448965717393806721302291099470150187645952995207500000000007274212837674823551080293337941274960602374153104500000000000454182931906899074376535548764749969944550392376500000000005909055434697580151413564466999725159619424277393500000000005909595329302780319969206583236349391577752498052500000000000452563248091298568709609200054877274069565730400500000000007280151678332025405192356616544141512143984580347500000000000426830038580599810520964333768556677354495948211500000000006012528167345575352723786048381631778438031626807500000000005523057292037098778583891472704916208893377544560500000000001895242664506029532940648060798703385988458194952500000000001895972049938783089653516284100270247152789675632500000000005520869135738838108445286802800215625400383102519500000000006020551407105864476565336504698867251245677914290500000000000396925235837703985293367178404315369616905240319500000000007391747649543319582261194781683871270286701124434500000000000036084165989017685661853694860199549236290261946500000000007463915686500609675091390438875330532768137827783500000000000108253088008543613972584549638478319691158426921500000000007103071961465215869018271362570756188467228464532500000000001479459066130592909954330000078496926439927714951500000000001979091774012412491164408637115256105773060675663500000000005604173837819757125388035451460478650467829582396500000000005604212874708559007283449557042829292355620994753500000000001978974663346006845478166320368204180109686438593500000000001479888471907413610803885161484353987205633250874500000000007101471449024338711306293033694379871067780557910500000000000114225731995231543970942703738126528523244517486500000000007441625622994735112809936151353114014839241372146500000000000119271776025828004789312690849417412119789993930500000000007081287272901952868032813085249216336681598652134500000000001555579132366360523079434968153717241153815397535500000000001696396197632605039649447042135914698703139757727500000000006658836077103219318322776863302623964033625571558500000000001668259493954517687059445504653589445162357956043500000000001668125947078709933439441118083018255316942604272500000000006659236717730642579182790023014337533569871626869500000000001694927181998719749829398789859631610403570888251500000000001561054554274478421499614817547136024815844820125)
  pure val QR2_6 = unpack(118, 500000000011790660927868647329279836653321350920955175992574500000000018719317476689714072076588704691190304211095976184500000000018332069165372496382413808527913887862200440102689500000000012952405861820300398268177183653258246987143613059500000000019858307387346302024513482737473079149850985445076500000000012614364588794491503677891866454425153608914606639500000000019684234257475731960774949796709220235713356128369500000000013648698381302580653222308946708693903537660879885500000000015720972217313945426335814416456004150136000352091500000000013467412749441637641434433387467289495918337711752500000000020409376784919504007926452033674837866190648800901500000000009895080110880346326859758477833359039319067084645500000000015010302771559110684634514054991725976533082860518500000000020063708802883210934602185302199737054548601473282500000000009734862016908045576956744736209325805272511246352500000000015996843129484606757570835752962959724361353541309500000000016277765465153527392759912251938835297282074588413500000000008892095009901283671389515239281699086510348105038500000000023153854495241337921682026790934368356676532991433500000000003492487009133364641882377596980827486783519929229500000000022876197468225203510788462821142321696189387291653500000000010002723117965821314963771118449885728458930904161500000000012112910059911511229356452705058135389974889091702500000000016545636642388133767610418061317572711641512729030500000000011704543370535953700201875049671573763459059992179500000000011636189875468051431582081739996132234522247302256500000000016750697127591840573469797990343897298451950798798500000000011361021614164586274538726298628278571669949502553500000000012805216415749814328375296815142988414868251190991500000000012418112722836156411960086440799767768857045733485500000000012522332692905560023784357421657940509703565875071500000000012492556505541603492902483872568470192328690766231500000000012507441284928026004605707088068178720981671060004500000000012477678354746292488674687775158814923744624993751500000000012581845296086804040695541811296561584039828964991500000000012194940460906491348543144979654938740096059146283500000000013638392860287230565131878270083683455575934449875500000000008251488097944586390929341940010327437600203054217500000000013355654747934423871150753969875006794023253333257500000000013325892910317718124467642180489645386306783612756500000000008340773610794703630978677308166411660749612215718500000000013311012646503467351617648586844707970694767524373500000000013415175803191426962550728344454756456471317686790500000000008028284140730824798179438035336266203419961728469500000000014471687633885273844731519514200178729848835399336500000000009084965323728079822894483907863018877184696674186500000000009188451071202406863690544854347745761412377903918500000000014161230391462292722343336674745998077165791710140500000000009166627362948422246936108446668261929924455255521500000000009172260156744018289912229538580954203136387267776500000000014144332010075504593414973399007921257529995673375500000000009250411802953963336427876865387360766743630038724500000000008854020778108642060873519139442635675495484171730500000000015333505084611468420078046576842096531274433274355500000000004811958883445484258814294553188978199406782730851500000000010418659381606594544664775210401990671098435802242500000000013513403590128137562526604605203059116199474060180500000000010527726257880855205228806368785772864103667957038500000000004375691378348441616558169919653849427385854111669500000000016969508228725378328538513952598829426352915596287500000000002746275706750045069287774269950832867202483503182500000000017045388944274441394310388967597839104837150390984500000000004072168516152189353470669859657810713448914932882500000000011665936991116801191806931593770918041367189877488500000000009264083519380605879301603765258517121082325557165500000000011277728931360775290986653345195013474303507893852500000000005625000755176292956751782853961428981703642867428500000000011222268047934052882006215238959270598881920636437500000000009485927053087495515223356190201488622768674586824500000000010834023739715965057100360000234774910043381016267500000000007177977988048644256375203808859411737057801348109500000000005454064308089457917398824764327578141725413591297500000000016005764779593524074029497133830275696040544286702500000000005522876573536445786483186700351319074112409261896500000000006902728926260692780037756064764448007509818665716500000000011866207721420783093365789040590888895848316075241500000000005632440188056174846499087772871996409096917033322500000000010604031526354517520637859867921125467764015791473500000000011951433706525755070949472755443501719847019800785500000000001590233647542462195564249110304867652847905005386500000000011687631703304396146793530803337027668761360177670500000000011659239539239953217261627676347021672106654283935500000000001675410139735790984159958491274885642812022686591500000000011639119901816882846098538358553435756645254969701500000000011768110252996677631445888074511371330606957434606500000000001288439086196406628117909343401078920926915291876500000000013078133402217695856082474551884312985685381397891500000000006399027304932809947552192449061669136331559116561500000000006325757378051064353708755651869010468988382135865500000000013297943182862932637612784943462288987714912339981500000000000482469890497205095840104574281833580151968504213500000000014772177255148246979026796759410376691677213643167500000000000428821088909806988052708388076659653139176923119500000000013512538389212525068762369688282984695766078664357500000000005521025354240092736897812858791401563796508419452500000000009403360193827103983646378876551409049047887657836500000000001865533870451491328516671635002962240011940949203500000000013134504324366930702286934583436741990904348545352500000000005596448832080785862335590031250069796370664869388500000000009479700347309925848370705291562978823612991977095500000000001484749778679510744181588802498014909177367222231500000000014581300537972031174902939498444961539677539133982500000000000190048069432364556206653203722138932112476241843500000000014658507184298510600270447686666482731872555898648500000000001175923193373593042711556049611930140397300163567500000000010637800042207117228883328114885796706538243447085500000000001272876637797938041755131490844883033449726048094500000000014270693406601130604096145921734671159662852360538500000000001644349735797539541860284822216432327898864509752500000000009151907650208711228462714789399599528741689600453500000000006748019663367615544288856020185169557134377088437500000000008856013696320826594381861129859722242720802045801500000000002827925551349078078183699460375941471982414728359500000000009832284098282861092883341028636511869349539040762500000000002842938055519477550282936425078011050619429108592500000000008795963679639228705984913271051443928172744524870500000000006973207225923607625777410490716213236689592791929500000000008311207416666340790905444766083703125068884307416)
  pure val QR2_7 = unpack(118, 500000000009866279049986030817436002072289691460155450313368500000000218190189851749504276098637607081109690707469966703500000000017372961543015952078169447499385869777014669819820500000000162317963976186687411223572395375411201233850754018500000000083355182552237298276936262919112485418049927164107500000000104261305814864119481031375928174647126566440589555500000000099599594188306223798938233368188926075684310477674500000000097340317431910985323215690599069648570696317499750500000000111039136084049834908199004235532479641530419523327500000000058503138231889675043988292458800432863182004406944500000000104948310988391464915847825929265788905741562848898500000000121703617814544465292620403824136411513851744197465500000000008237217753430673913670558774188565038851460361241500000000145347511171732839052697361079109328330742414357569500000000055372737559637969875539996909374121638178882208483500000000083161538589715281445142651283394185116542056808501500000000076981108081500904343889397957049137895652890557514500000000073914029084281101179299756888409263300846380961441500000000077362775581374690938911574489313808900961585596720500000000066634868590220135065053945154335501095307276651677500000000076097750057744768800872644893344186717809307796570500000000063974131178800789731455475272287752033455492162041500000000073005725227052072273305454017504805148368723555264500000000064002967912990921175322708657693027373069613616903500000000060982403120984243025403711351723085359352821977126500000000067067419603072106723062445935414631189519098474595500000000060747918466727330082346504906618389882570784124495500000000064940906530018572947551534438111809280197765027424500000000054488455413198378127447357340934372996638155765809500000000062105271817187914542659036198150698733249611909340500000000057090457318049963701916497866462832070363396596832500000000054532898910612230649674972335997972985296801703333500000000054777947039501113699383612789545275988449396589835500000000056355312931383314552790576505820923060905611937327500000000049800801234965628089454081187171031767928155660857500000000059441482128754173089393098745494949867381765419244500000000042433270250017679552973523830849168762544782662166500000000055825436871175108698712805931108375082439103932092500000000049264982265281885652175252444717330907698801609465500000000047114634067697348692586184290022301286765689630049500000000047276481463928719577480010395193463945238439870339500000000048779440076587772997493774129203842932280550888594500000000042605758229720188432544893087991164325639356575286500000000050797527004531473272326653518831499765162022810264500000000039204133752153918478148492836682836613712552183660500000000047385937986852852815079375134437153779987768455098500000000041252114300434670261534006625568548266336373995950500000000042605604811408466138784598363288653154666735561103500000000043325466453931465183327599921276839114996683759637500000000039092529372865673127905001951603990385346529400347500000000040304416054605842305052392272307199343617198638973500000000039689806408710957651885428959167212240184676043761500000000040936358310550327087405891891023951695644097185984500000000036564760349087733998491003476736980977238935212305500000000037804600293098736918630094202028124395400161964797500000000037216838478517318326988619715150521441160416928509500000000038328045792831989773415426937369789839958170321169500000000034470978350154722579349672535370319199006901786816500000000033788040806549119909185882921148933364014222531569500000000040376858423648797783906795780033947344936208086909500000000029704525498855688955186933958715277256240945120797500000000035805039580928446395345468385104943630100011429905500000000037075316177430525463431192500864948223359009159585500000000025893695709349451750929761611435263476463951931755500000000039349900985171667532849761053393997870785183113393500000000026706700349963878117671194174988745040395315614672500000000033823297614972819996465462246651021967633554427920500000000033000109190144841896466956838407167089070466673648500000000029176265624447812417666710399720309676084578877489500000000030294828312063908432866201562711594206591217816395500000000029644421127296553850868483349433313497550549856930500000000031127487178749876163659865039555151803206582755884500000000025845630157703941494492056492346079289623119119532500000000030489992190434357858371908991060531038300940765988500000000032194401080558627072020307543411796557173117816518500000000020732403487331133853546860835292282733006587967941500000000034875984970116837513792249115419072510800530311717500000000019763656632201516091284142703031427223791290785190500000000036069388501077098121071180072455218594034306547521500000000015958789363490091424431137007147698400071483024725500000000035095454044962536181204271898953987805679761353580500000000023659394456659763850751775397036350377209471560956500000000020266968128398408415788626512900610685482352402597500000000030272733029746602486093718551361206880861118828655500000000023642099752615181639836499281654561791073172282781500000000025158867959792670954560284322020545954846192040220500000000025722428408214134541922363430263254389542059556339500000000021951418407350790877750261956926436486985569734424500000000021471897962382701947076588742030999662515661505966500000000027160989743118401333943383074949564862951784241711500000000019884143065143692717149878958170740885677201527191500000000028302437996306827797457101092367471594339409649525500000000016906104949628996093021716672359372736965159874709500000000024073142205177187830456032218195037457799950851639500000000021801326229662252585154154454860477431835036718734500000000023721552876173801828927349962363052814859902273426500000000018312462265642540099136445695687311308725354187561500000000023028598061256037774526867254887701950238680976329500000000024573145489333308802756085284761880890319921907122500000000013678819981410727014448791606064774488481631395181500000000025711574585023783139448748290979021155753552512154500000000018474881678494140427756215230019140888504158556204500000000020388898700999655149526390788944415290229813263030500000000019969523517507238974138221614203197950576588391675500000000019733007228971388953920722754242792907463833170271500000000021098447566607205210178887368825630419568078927240500000000015873202504599790205363727770454685414263851120769500000000020408742414993633968366201549355627923376516589684500000000022491827835425673921171466032122802892230082520495500000000009623946243303670346947934322153160507703153328336500000000029012387191359644691036796679264555076957304166160500000000009326504991257750888904878960788619184467630007025500000000023681592843609351753343687477580968185172175805741500000000015947123634304842097720371128887508074843666770010500000000017529912619171279855774828006868999515453157114220500000000018933225889010038479180316843636493863343704773109500000000011737183824788566227503904618585025031172023793342500000000024118038811835696610804064682023406011968200053521)
  pure val QR2_8 = unpack(59, 500000587892810668757402488139609455828712892044420012690166500000307620000000000000000000000000000000000000000000000000500000027347189331242597511860390544171287107955579987309834500000027458432006272207464418828367486138676133260038070498500000010044082643668572630464295985884158187511379860408173500000008130237419053502013723987688977228573821220520296812500000005434967680117419314639753258206927517203738058404581500000004179891860476820727716999278195061357363827246084863500000003345464877975297774492249629012827053340952957255967500000002688248627621988174314002205753630429272360924891268500000002251540611536749528251741547972651229569603343178962500000001955588926231013712679031602355764652449225702392885500000001626103683539195621032132042604290160633493847249496500000001439996339612203803192440227227074705016798908609129500000001313910958011989166198107048487411019299310518313988500000001104359828339839532015131578823281217785959018134918500000001018649728628652705741366636219464109556853409146341500000000971041257145549645019401876298862343986627345279717500000000797185242789148714181025858585086514496637209734791500000000790217771697855498256494689360791598026823815781118500000000691943670419429292792995383971747093396067527140735500000000642007546624427330571523774752220028388906075655940500000000640026143082861384920909517019372793048308170235504500000000547887881044127129744838157170288799417861243402043500000000468422332740630096099737854299472009280246856156325500000000578422787993352485856210425631823163461151331972657500000000367886515285959960475420443173235336875147815953049500000000500031150862807672242107801675235489038257404215149500000000331988881262809350556148350125822706971822567186354500000000422013324085954925533298797821473683074452327039434500000000379957822393370947310656458588282560730368124655910500000000308155386340561285224075367825396074004075174336925500000000337420632244383911793042070110133143253331177996391500000000292162084681903067603756351734071352982600113677510500000000293931029028003817791932522953581444816268367293569500000000332113799206081661228513556451602867752326417148215500000000177613774147669537294013251240007084174425964113571500000000307431104203240189595433438588368795549969726397501500000000242661809039369704324252994406517733625695130296425500000000221921659639280993107554583785560269947249752416800500000000219651552403506323245528670451241186585305860036375500000000249472130746693713910330734409474983711526807437698500000000132459924609718821113148391910858878568586910212831500000000270688170814431001637075697947089502014125551710978500000000134787392132557172338548816300783113374910882943259500000000240162260655340309008729036849778044486230916515987500000000104563565246081591626535036300104708680165450992795500000000241583478360333324485130817949803120793107279512835500000000129102521312585110432941691900682808147405430955864500000000142006436389326233783102414447465646617270996663708500000000202871733130109954434648650309454605383510582389302500000000096506631090233948478302984314715931848686673779083500000000161101742508954251652139412431681667221742722494364500000000159086398873949044913139365958557399264342436243459500000000102552661995249568695303123734088735720887532531800500000000180702953145052680305648139105087657852107433629343500000000074635525424539710082104319845560632870682732950830500000000120754945156788479365934581512669810665161634567336500000000192344693948306372454157354103760124468670728779824)
  pure val QR2 = List(QR2_0, QR2_1, QR2_2, QR2_3, QR2_4, QR2_5, QR2_6, QR2_7, QR2_8)
  pure val QD2_0 = unpack(118, 500000000001970801004158050497390090316422664791718486196432499999999998099366483459276804656701066278920612399080577879500000000005631733062004842283983105418461652758685191492052499999999994373701268521354059410877259874468352860153453911500000000001873461863909741478373385542040473829874194692303499999999998132451275839680027095580571963636327643067776879500000000005596733032731538413244292170104980859553534200183499999999994480616593234166319927250747616440234142795422390500000000001480800594331796307046704839429258203875284110257499999999999596181029438648451885929894666526950356068136582500000000000134475287913609885409575581904633994700443343414499999999999865917818906912006475767777714937070842158489763500000000000401853436458742088687353307235617721930922697535499999999998526668435258119638774818993342592041434150720097500000000005491472822508779356213370719394014112332474422076499999999994507440274706762936371698129081351509235951591599500000000001478766078664168898299836764280579850723719211529499999999999577495410636561470428954813796329087869171562285500000000000211252278789585219984343980534103797799594539332499999999999577495474205097649633669264067255720932450280388500000000001478765824390024181480978963196873318470604339114499999999994507441228234805624442414883145251005185132363154500000000005491469262670753320749361504222122660788866208270499999999998526681721082181092560139099966258351659402803765500000000000401803853000522309010082095912843932573522576669499999999999866102866915729671399532516382365918046506889557500000000000133784679336559005391787838557692395240449865103499999999999598758415738034307033316129386864500991693650032500000000001471181657711303766474947643894849600792775534767499999999994516514953416750627066893295033737095837204210898500000000005462758528621693725257479175970202015858407621642499999999998632450932096474471903190001085454840729165302535500000000000007437742992408387129760819687978621224931168217500000000001337798095933891979577766720162630674371110024598499999999994641369873272023694559172299661498681290628733390500000000005096722410978013242185544081191374600466375041842499999999999971740482815923336698651375573002916843871099243499999999995016315657758293411019850416516613732158140561188500000000004962996886150903019221946958360542154523566656007500000000000131696797638094512092361750041217649747592814785499999999994510215923296718932408606041474587246486062084852500000000006827439509175029758273214084060433364308158845807499999999993180026040003162034498537622283679296281302531921500000000005452456330812322103732635426804849450566631026509500000000000010148636747549550570920670496922901452173362042499999999994506949122197479693983681891207458943624675525324500000000006962054874462531673494351764673241324049124536661499999999992644831379952393612038911050099575760178826328031500000000007458619605727893878350004034928455635235570151216499999999992520690197136030874561072810186601698878893067104500000000007458619605727982623405704724325137569248857580368499999999992644831379952038631816108292512848024125676611422500000000006962054874463862849329862105623470334248435973942499999999994506949122192509970864443284993270638880579492810500000000000010148636766097267212364754403447110229246054819500000000005452456330743100960286097697392940920202436287913499999999993180026040261498891643244456024789208961008793528500000000006827439508210903473140924478507902243953528537976499999999994510215926894887215793057629943601815224877054567500000000000131696784209547663686845001717690495146963243754500000000004962996936266922129459562363185636204187269970417499999999995016315470722763818474905545539764688103956874578499999999999971741180842022596640815454655305043396902531272500000000005096719805909145794961832635839015138308433000332499999999994641379595521394223511854001988634403369365467398500000000001337761812005277310990751356206447248214105130077500000000000007573156457496532525140573185576603774214012295499999999998631945562164736558908686351051246336689038820743500000000005464644594883557231840114022609438049469630704734499999999994509476058301034513730857558511001465432438360320500000000001497451171912304713236455743346556088800615853986499999999999500719254049746633323319468102774179365098223738500000000000499671811888708753470266384242347193738991251063499999999998500593498395418352795614994927837045678936772010500000000005497954194529617835347273636046304623545261660896499999999994507589723486110305815290460886944460140016584407500000000001471686911525940941391564520405917535894672001478499999999999605662630410125928618451457489385396281295409682500000000000105662566833555344134629649636540878980146359795499999999999971687102255652694843029943964451087798119151138500000000000007589024143833876493250574505654769827377035655499999999999997956801169011799183967758012929832892372706244500000000000000583771180118926770878393442625898603132139370499999999999999708114110512493732518668216566572695098736274500000000000000583772377831098299046933691107810616472915532499999999999997956796378163113071293597019002184839009601597500000000000007589042109516449415778678232883450027488678081499999999999971687035183771089265591690049464015051035686080500000000000105662817155399193521854561569260489768368577598499999999999605661696194632136646990063673494025875490003530500000000001471690398066072259890185183736763406729671408284499999999994507576711541078823792269201379452347205824363333500000000005498002755769612444940738010745427204447031138385499999999998500412265380471396444778755638838835006051083128500000000000500348182708501969280146966699217455528764529103499999999999498195003785520726434633377564291342878890800460500000000001506871802149415124981319523043617172955672269057499999999994474317787616818773640088530261239965298420123313500000000005595857047383309780458326355911422965850647237689499999999998142254022849942104526606046093068171298990925929500000000001835126861216921801435249459716304348953389058595499999999994517238532282370689732396115041714432887452839691500000000005095919009653595439635166080116837919496799582642500000000000099085429103247551726939564490933889125348829740499999999994507739273933414353457075661919426524001805098398500000000006869957475163095034444757787831360014867430776669499999999993012430825414205508763893186755133416528471794925500000000006080319223180082930499669465148106319018682043629499999999997666292281865462769237428952652441307396800030559500000000003254511649358065992550614724242128451394117834135500000000019315661120702273260560112150379044887026728632899499999999979482843867832840965208936674241692000498967634267500000000182752963407966362878604141152654187110977400830033499999999544505302500301707520374498715141559555591429045601500000000349225826590826807039897863986779574666656882987563499999999883591391136391064320034045337740141777781039004146500000000000000000000000000000000000000000000000000000000000500000000116408608863608935679965954662259858222218960995854)
  pure val QD2_1 = unpack(118, 500000000005593270044404019499115834212714235527886389876869499999999998142981214733406499253571877991773123357337201976500000000001834805096662354503869878275318671978684261315227499999999994517798398617175485266915020733538961905617537117500000000005094001308868943555062461641747172173693268536306500000000000106196365907050294483238412277772343321308317660499999999994481213227502855267004584709141738453021498193055500000000006968950724081528637498422751155273844592698910120499999999992642983876171030183001724286237166168607706166464500000000007459113771234350630494680103896061480976476424024499999999992520561038891567295019555298178587907486388137440500000000007458642073199380189427098703389586889077971026216499999999992644870668310911947272049888263064536201727757697500000000006961875253556972021484701743558154966115117942996499999999994507628317461199966789143137504315599337800470319500000000000007611476598228111358725706424582636533680175729500000000005461925776145887587775954036797353854527478826764499999999993144685418818221537537458146386001945356404517216500000000006959332548581226262074213377658638364046903104372499999999994017984386856873414165688342979444598455983065297500000000001968729903991280081263033250423583242129164634439499999999998107095997178006260782178655326222433027358396946500000000005602886107296694875608252128271527025761401777778499999999994481359573635214236784812831587669463927034491941500000000001471675598162448177252496545377795118530460254459499999999999631938033714993054205200986901150061951124490222500000000000000572266977579605926699507017604633665041784653500000000000365772898374688522088000985028431403388708371164499999999998536336139523666305721296552868669752780124730689500000000005488882543530646255026812803496889585490792706078499999999994508133686353748674171452233143771905256704444997500000000001478582711054359048287378263928022793482389513932499999999999577535469428815132679034711144136920813737499275500000000000211275411230380420996482891495429523262660488969499999999999577362885649663183335033722874144986135620544851500000000001479273046170966845663382217007990532194857331629499999999994505544929666469434011437409093892885084950128635500000000005498547235163155418290868146616437927465342153832499999999998500266129680908892825090004440355405053681256039500000000000500388246113209010408771835622140452319932822013499999999999498180885866255065539822653071082785666587455908500000000001506888210421770727431937552093528405013717354356499999999994474266272446662024732427138554803594278543126667500000000005596046699791581173638353893687257217872110138974499999999998141546928387013280714157286696167534233016317437500000000001837765586660365703505016959528072645195824591278499999999994507390724971523905265774875191541884983685317452500000000005132671513453538675431883539705759814869434138915499999999999961923221214321393006690965985418855538578126889499999999995019635601689175752541352596352564762976253353528500000000004959534372028975596827898648604322092556408458999500000000000142226910194921860147052809230146866798112810477499999999994471557987191336962583890114475090440251140299094500000000006971541141039730289517386732869491372197325993146499999999992642277448649741879346562954046944070959555728323500000000007459349064361302193096361450942732343964451093563499999999992520326293905049348267991242182126553182639897425500000000007459345760018500413831673580328761443304989316736499999999992642290666020948996405314436502827673597402835630500000000006971491575897703600547068673659927862305399340744499999999994471743030388236601406410868857460877180999801396500000000000141536302549349993827287850910228628970601453674500000000004962111759414363423284437727501624606936594383907499999999995010016659793196313034961239083272943283021010696499999999999997821601412851324575717316165283619931321573308500000000004998696934555398388662169496255592576991692696070499999999995007390660365555120775604698812346072101907642410499999999999971740423982381128235411708495023134600676734288500000000005105647643704920366282748467207561389495385420438499999999994605669001197937406633594422674731307417781583960500000000001471676351503330007182873842093513380833488243721499999999999507625592788742564634910208951215169248265441155500000000000497821277341699734277485322101625942173449991659499999999998501089297844458498255148502642281062057934592210500000000005497821531280466272701920667329249809594811639502499999999994507624577033676410937168828040719699562818849781500000000001471680160584828083549404020507871392153912961373499999999999605654780627011254865215089927794731821529304728500000000000105700716907126896989735619780949680559969819715499999999999971542351744481157175842430948406545938591416414500000000000008129876114948474306894656425424135685664514631499999999999995938143795724945596578943349896911318750525063500000000000008117548702151743306789570174988219039333385116499999999999971591661395668081176262775950150212523915934471500000000000105515805715175931988159326024410930865002876998499999999999606345115743628190871099919952206064016072557538500000000001469103731310311304527440994166764813070706892852499999999994517239959015126591019136103380734683701099871055500000000005461936432629182331396014592310296452124893622930499999999998635014310468144083396805527378079507799325637226499999999999998006325498241335016763298177385516677803828168500000000001372960387538890576536141279912378425489459050104499999999994510152124346196358838671582173100781364359971417500000000005586431115076323988109172391395218449053101064228499999999998144123415348507688724638852246025422423235771672500000000001837075223529645256992272199620679861253955849084499999999994507575690532911283306272349271255132560940831992500000000005132622014338709609782638403294299608502280822948499999999999961936252112250277563174037551546433429935876215499999999995019632977212289279964665446499514657777975672193500000000004959531839038592602578164176450394935458161435013500000000000142239666633340309722677847698905600389378587757499999999994471509494428046158531124432753982662984324213960500000000006971722355654475056152824421285163747673324556401499999999992641601082954053616857577882105362346322377560434500000000007461873312529310476416864050293386867037165201861499999999992510905666928704477474965916721090185528961632122500000000007494504019755871613683272282822252390846988269650499999999992511078254047809067791944951989900251083085289278500000000007461182964052892115148947909218146604820670573238499999999992644189889740622471612263411137513329634232417771500000000006962057476984617998401998446231800076642399755677499999999994507580202320905534779742803935286363796168559522500000000000007621713731759862479030338027054468172926006235500000000005461932942752055015304135843956495763512127415537499999999993144646515260020076304426286146962477778564331616500000000006959480996207864679478159011455654325373615257998499999999994017429499908521205782937668030420220726974636393)
  pure val QD2_2 = unpack(118, 499999999998641949214963974454711648268762346065625142938297500000000005460114510832475804136083113526370100357115482492499999999994517592741706122328744019277132173532946395131735500000000001469514522343034880887839777944935767857303990567499999999999604349168921738147704621611088083395624388905995500000000000113088801970012528293673777702730649645140385452499999999999943295623198211739120683278100994005795049552198500000000000113728705237140515223593109893293327174661405756499999999999601789555853226199984944282325832685506304824778500000000001479113071349954684836629760803375930800119295132499999999994481758158746955060668536674460663591293217994696500000000005593854293662225072489223541353969704027008726086499999999998142824666604144649374569160123457592598747100961500000000001834847039921196330012499818152199925578002870071499999999994517787173711070030575431567267742705089241418754500000000005094004265234523547685773912776829254065031454911500000000000106195765350835778681472781624940278650632761600499999999994481212673362133337588334960723409631332437498687500000000006968953541200630870965187375481421196019617243651499999999992642973161835343178550915537350905584589093526709500000000007459153811457996414831150475114956465624008649514499999999992520411592332671162124482562189268552914871875234500000000007459199819211318936670919276127969322716503849548499999999992642789130822053091191840333298854156219112726573500000000006969643657500468698561719390676614052407045244161499999999994478636239176072114561282103994689634152706296784500000000000115811385795242843193152193344627410982129568703500000000005058118217642956512666109122626800721918775428403499999999994651715743632931106142411316148169701342768717686500000000001335018807825319062764245612780520472710149700854500000000000008209025065792642800606232729748407816632478897499999999998632145091911510366033329456300485896023320383558500000000005463210607288165893066075942068308008090085986871499999999994515012478935826061702366775426282071616335668957500000000001476739476968529860124456956226563705444571337300499999999999578029613190054497799805399667463106605378981844500000000000211142070271252148676321445103583868133912735325499999999999577402105724936907494908819918201420858970076856500000000001479249506829000221344043275223610448430206957251499999999994505599866959062207128918079187356785420202094139500000000005498351025334750950140284408026962409888984666191499999999998500996031701933992309944288704793575023859241096500000000000497664847857513080619938437153863290015578369426499999999999508344576868013685210301962679753264913827281200500000000001468956844670432178538853712127123650329112505776499999999994615828044450257600634283188811752133769722695698500000000005067730977528537418924013532625867814591996711432500000000000113248045435592723669662680684776607862290458575499999999994479276840729091686397335744635025753958841454268500000000006969644591648040530740994340775120376302343724353499999999992642144792678746190638686892264492740831783648318500000000007461776237636974706704258090166908660370521682373499999999992510750256773354982544280747067872617686129622189500000000007495222735269605363118618921561600868884959828873499999999992508358802148223564981243566685723906774031062321500000000007471342056137500376956406811695503504018915921843499999999992606272973301774927193129186532262077150305250308500000000007103566050655399914271076442175448187379863076924499999999993979462824076625415722565044765945173330242441996500000000001978582653038098422838663378760771119299167155090499999999998106206563770980892922781440190970349473088937642500000000005596591091877978005470210860475347482808477094341499999999994507429068717107085196375117907639719293002684992500000000001373692633253593653744288667894093640019512165690499999999999997800398268518299826470210515985720628948652247499999999998635105773672333146949830490041963477464693225321500000000005461776507042149112374207829316160369512278446468499999999994517788198159070403553338192693395044486192988807500000000001467070700321569273412439399910259452542949598302499999999999613929000554652502796904207665567145342008617983500000000000077213297459820715399943769427471966089015929766500000000000077217809606064635603320714624544990301927662952499999999999613915464115920742186773372074348072703273418424500000000001467120333930252395649585797078062718884978663351499999999994517603200163069675214883439613401051756811928171500000000005462466865417468903490880444468333074087773623966499999999998632529338167054710821594782513266651892093575965500000000000007415781914312253222740425478600318343852072173500000000001337807534175696276287443515572332074732498135343499999999994641354081382902641627485512232071382726155386454500000000005096776140292693157202614435499382394362880318842499999999999971541357446324729562056745770399039822323338178499999999995017058429922007924549158581419021446347826328444500000000004960224922865643572241308928553515174786371348045500000000000142041878615417786485605704366917854506688279376499999999994471607562672685281816268253978813407186875534451500000000006971527870693841086249321279717828516745809582821499999999992642280954551950373186446627149872525829886134266500000000007459348311098357421004892211682681379934645880115499999999992520325801054619942793984526119401954431530345272500000000007459348484683162807819169683839710802339232738796499999999992642280260212728825929336738521754836211538699545500000000006971530474465921888463483362073269852814612463024499999999994471597841923583620216729813185165752530011448359500000000000142078157839743630669597385186067137065341743540500000000004960089526717441857104880646070565699208621577481499999999995017563735290488940910880030531670066100171946537499999999999969655532120602379251599231802754036390690636373500000000005103814136227101542082723042257313788337065507972499999999994615087922970991452417508599167990810261047331741500000000001435834171888932648247242561070722970618745165065499999999999641575389473277954593521156549117307263972008000499999999999997864270217955533378672812732807800325366802935500000000000366967529654899911891787592519651491434560780261499999999998534265611162444819054176817188586233936390076023500000000005495970025695320811891505138726003572819878915647499999999994481854286056271933379802627907399474784094261388500000000001576612830079591454589284349644398528043744038800499999999999211694393625362248263059973515006413040929583412500000000001576609595418959552358475756295575819792537627552499999999994481867224698799542303037001302690307788919906379500000000005495921505785842278429376238493662949051782746930499999999998534446752157831343979458044722657896003949105899500000000000366291485582832345652791582615705466932420829475500000000000000387305510839273409375624814520236266367576202499999999999632159292373810560709705918126213588002108865716500000000001470975524993918483751800702680625411725196960934499999999994483938607650515504283091271151284765097103290549)
  pure val QD2_3 = unpack(118, 500000000006439388585570669054899172370148678179083443294836499999999994621223264678536285458757690652277486227924461774500000000000075718355715185803265796867242211876004858858069500000000005075903312460720501478054840378875009752640105951499999999994620668394441932190821983771242288084984580718126500000000001441423109771550735234010074651972650309037021544499999999999613639166471864868241975930149821313779271195698500000000000104020224340989791798086204748742094573878195663499999999999970279936164175964565679250855210307925216021650500000000000014860031002306349939196791830416673725257717738499999999999970279939826598635677533581823122997173753107399500000000000104020209691299107350668880877091337579729852668499999999999613639221408204934919790894668511652507327481930500000000001441422904675881152970167540448862052390960219611499999999994620669159888270453199538943536040137928831639628500000000005075900455771037034231676685406977395893713221879500000000000075729017027581409873754314836050278496315472855499999999994621183476118637326273306055248821490121024886701500000000006439537078497869285033021464168663761019584980342499999999994620668209889885533594608088076523465800635191932500000000000077790081942588580588546183525242375777874251928500000000005068171462339760144051207177822507031087867800354499999999994649524068698370843206625105184729499870654546657500000000001333732262866756483122292401438574969429514013020500000000000015546879834603224304205289060970622411289401265499999999998604080217794830619660886442317542540925328381921500000000005568132248986074297052248941668859213887397071053499999999994123390786260872192130117791007020603525083333868500000000002938304605970436934427279894303058372012269593475499999999994123390789857380070160762631780745908425838292230500000000005568132234600042784929669578573957994284377237604499999999998604080271742448790120559053923422114436652757356500000000000015546678430162054588094205732353547969011732974500000000001333733014536902991527064123147163693687300310749499999999994649521263422225979303649301678991677281787024032500000000005068181931774193091258338670136869597185551593124500000000000077751009481001655662996017773529933976006603473499999999994620814030301800286089677258769010666910421992985500000000006438992869311797199978294947150427398382305424588499999999994623214492451010913997142952629279739560356308662500000000000068149160884159144033133242332453643376269340764500000000005104188864012352509870324078040905686934566328282499999999994515095383066430816485570445503923608885465346110500000000001835429603721924224187394139943399877523572287280499999999998143186202045872286764852994722476881020245504769500000000005591825588094586628753193881166692598395445693643499999999994489511445575781198222371480610752725397971720660500000000001450128629602288578357320196390296500012667423716499999999999709974036015064488348347733828061274551358584476499999999999709975226337453468249288868297458401781898238381500000000001450125058635121638654496792982105118321048462001499999999994489524539122059977132723959774121124933907913615500000000005591776784876638452814607367921410381943319883538499999999998143368321371386211608846568540237347292812552233500000000001834749929637816700750006357917640228885429907528499999999994517631960077346985391127999789201737165467817654500000000005094722230052795357685481642925552822452698821858500000000000103479119711471583866945428508586973023736894916499999999994491361291101318306846736643040099285452353598478500000000006931075715883255188746107999331015885166848711171499999999992784335845365660938168831359635837173880251556837500000000006931580902654101058578566562125635419312145061480499999999994489340544017934827516902391861621148871168197241500000000000111056921274159631353823870427879985203182149556500000000005066431770885426647067802126426858910316103204537499999999994623215995184133780374967623864684373532405032297500000000001440704248378038231432327378114403595554276666274499999999999613967011303713293895722863677701244250488302607500000000000103427706407108592984781167174791427443770123297499999999999972322163067852334165152467623133045974431204205500000000000007283641321482070354608962332676388658505059881499999999999998543271646219384416411683046161399391548556269499999999999998543272093640391979744305482678013775300715043500000000000007283639979219047664611095023126545507248583558499999999999972322167989483417361811314424815804195704950726500000000000103427688062847282888143647277610237709931613539499999999999613967079759127451085614096464743244964568595120500000000001440703992900642912769399966863416782431794005983499999999994623216948638300897836786036081589625308255380948500000000005066428212546153495883455888810224716335184470226500000000000111070201177085118629390408677511509351006738148499999999994489290982745506029598982476479729246260788577183500000000006931765867840890762974679685403571505605838953119499999999992783645545890930918502298781905984731315855610341500000000006933651948595385563016125186972489569130738605518499999999994481746659727526829433200470204056992161189967586500000000000139361412494507119251072932211282462224501524136500000000004960807690294444693562507800950813158940803935868499999999995017407826327714106498895863985464902012282732392499999999999969561004394698880441908743107327233010065134566500000000005104348156093490371733469163585226165947456729346499999999994613046371231339632624214602551768103200107948050500000000001443466358981151097769672426207701421252111478455499999999999613088192844055976297095692617426211791446138129500000000000104180869642624997041944803322593731582103969030499999999999970188328585444035535125094092198861880137985753500000000000015065816015598860817554820308610820897344087959499999999999969548407352160521194655624673357854530485662411500000000000106740554575759054403822680997957760980713262397499999999999603489374344803261190053651334811101546661288000500000000001479301948045027900835962713662797832832641585603499999999994479302833475085135466095494013997567122772369589500000000005603486718054631557299655310281211898676268936043499999999998106750294306388635335283264861154838172151886241500000000001969512104719813901359211630274168748635123518994499999999994015201286814355759227870214042170167287354037784500000000006969682748022763061729307513557150582215460329872499999999993106067721094591993854899731729227503850804642730500000000005606046367598868962851093559525939402381321099208499999999999469746808509932154740726030167014886623910960438499999999996514966398361402418186002319806001051123035059039499999999999470387598044458172515264690608980908883948803406500000000005603483209460764891752938917758075313341169727338499999999993115679564112482260472979638358717837751372287241500000000006933798534089306066355142528807053335653341123698499999999994149126299530293474106450246413068819635263217969500000000001469696267789520037219056485540671385805606004428499999999999972088629311626377017323811424245637142312764319)
  pure val QD2_4 = unpack(118, 500000000001418372017391134035359545697912319082361847562233499999999994601083325787524439329236783178361652790897849852500000000005177294679458768207323507169374234306474561038360499999999999689737956377402731376734539324701121310857996707499999999996063753495031620867169554673326961208282006974811500000000001055248063496113799945046767367454045561114104050499999999999715254250983923933050258257203222609473536608991500000000000083734932568190467853920203819655516544739459986499999999999949806018743314195534060927518155324347505551063500000000000117040992458552750009836086107723186065238335760499999999999582030011422474804426594728050951931391541105896500000000001554838961851548032283785001688469088368597240655499999999994198614141171333066438265265195171715134069931484500000000006650704473463119701963153937530844051095123033409499999999994198567964976188125709118984681452080485437934880500000000001555023666632127795200370123743347626963125227072499999999999581337368495300693489400520345157411662061156831500000000000119626859386669430842027794876022726388630145603499999999999940155193958021583142488300150751682783418260758500000000000119752364781244236588019004520970542477696811364499999999999580835346917001470505435681765366147305794493787500000000001556906247550749881390238268417564868299125213490499999999994191539662879999003933611244564374379497704652255500000000006676935100929254102875316753324937613710056177490499999999994100719933402984584565121742135875165662070637784500000000001920185165458807558864196278131561723641661271373499999999998218539404761785179978093145337877939771284276724500000000005205657215494051721223431140516926517273201621731499999999995958831733262007935128182292594415991135909236351499999999995959015851457916538263839689105409518183161432865500000000005205104860906325911816458950983945936131445032188499999999998220564704916779814470324506958806737291058438382500000000001912636319426554830302243021180827114704321214285499999999994128890017377000864320703408317884803891656704478500000000006571803611065441712414943345547633669729051967802499999999994583895538361232286019523209491580517192135424316500000000000092614235489629143506963816486044261502406334936500000000005045647519680251139952621524564242436798239235939499999999994724795685789366296682550085256985991304636721306500000000001055169737162283673317178134407813597983213878837500000000001054525365561499010048737377111759616762507763347499999999994726728800591720286487872357145147934966755067776500000000005038559432071619843999773194307648643370471965549500000000000119033471121800337513034865624257491551357070026499999999994485306683441178805948087343195321390424099754345500000000006939739795113484438694615761594456946752243912593499999999992755734136104883439273449610426850822566924595281500000000007037323660466981804211585796698139762980057706282499999999994094971222027189343880207202780590125512844579589500000000001582791451424260820267585392179499734968563975360499999999999573862972275767375049451228501410934612899518970500000000000121756659472669679534609693814856526579837948761499999999999939110389833553906812109996239162959067748685985500000000000121801781193114693216950321228491637149167307297499999999999573682485393987320320088718846870492335582084825500000000001583468277230936025502694803384026393508504353403499999999994092444405682268577669132067617023933630400501564500000000007046754100039989663820776926147877871969893640341499999999992720539194157772767047760227791464578490024937072500000000007071089123328919267988182162686263814070006611370499999999993995104312526550160999511121463480165229948617447500000000001948493626564880088013773351459815525010198918842499999999998210921181213929486945395472697257734729255707186500000000005207821648579401964204644757751153536072778252415499999999995957792224468462656236025496298128120979631283154499999999995961009453546747410851253257056333980008696614968500000000005198169961344547700358961475476535958985582256973499999999998246310701075061787712900841037522184048974357139500000000001816587234355205148789435160373375304818520314469499999999994487340361504117617129358517468976596676944384983500000000005234051319628324382693130769750718308473702145599499999999999576454359982584852098118403528150169428247032619499999999996460131240441336208914395616136681013813309723923499999999999583020678252070312244299131925125775318514071690500000000005207786046550382542108407856162815884912633989319499999999994585835135546399519322069443423610685030949971034500000000001448873411264019380603314370142741374963566126546499999999999618671219397522958264673076005423815114785522781500000000000076441711145888786337993325835563364577291782331500000000000075561936018921896383353620652322726576047347894499999999999621310544778423628128592191555145729118518826092500000000001439195884867383591102277613127094356949877347738499999999994621905915752042007462297355936476843081971782955500000000005073180452124448379048532963126998270722235520441500000000000085372275750164476343570791555530074029086135279499999999994585330444874893715577183870650881433161419938442500000000006573305944750260661347693725840944193325234110952499999999994121445776124063639032041225985341793537643617750500000000001940910950753484782524141370217688632524191418047499999999998114910420861997230871393293143903676365590710062500000000005599447365798526293990285457206696662013445741703499999999994487300115943897593167464878029309675580626323125500000000001451352170425883333339855030676064635664048965798499999999999707291202352569073473114999266431781763177813682499999999999719483020163840372767684972258208237283239779475500000000001414776716992069435456145111700735269103863068419499999999994621410111867881885407734580938850686301307946848500000000005099582835536403022912916564543861985690905144190499999999999980258545986506022940599160885701370935071476391499999999994979382980517572885324686791913332530568808950247500000000005102209531943202435760653671460968506789692722622499999999999611778891709617371632698522242793442272420159266499999999996450674901218328077708552239567857724120626640315499999999999585521503417070317533092519485775661245073279475500000000005207239085113390652159077682489039630899080241787499999999994585522156129367073830596750558065815158605753379500000000001450672290369141052518535315278697108466496744698499999999999611788682394068716095261988327145750975407267830500000000000102172980054584083100416731412719887631874183982499999999999979519397387594951503071086021974698497095996241499999999999979749430395036110887298924499381318379741831055500000000000101482881032260604947733215980500027983936679538499999999999614319045475921469321768211578618569684511450792500000000001441240937064053517765193937705025693278017517294499999999994620717206267864459617456037601278657203418480030500000000005075890237864488643764981911889859677908308562584500000000000075721842274180965322616314839282631163347269633499999999994621222393038787494944552828753009797438302358883)
  pure val QD2_5 = unpack(118, 500000000001212033563594480402333757229366664782250870609933499999999994394098089045133911476487656946156674247899416074500000000006211574080224983951760292142848708520757531725773499999999995759605590054930281482343771659009242721973680836499999999995750003559555294922310332770515254508354573550884500000000006240380171723890029276325146279972723859732115627499999999994288475753549144960584366644364854596206497986608500000000001605716814079530128386208276260608891314275937942499999999999288656990132734525870800250592709838536398261622500000000001239655225389531768130590721368551754540131015568499999999995752722108309138401606836863933083143303077676107500000000000749456341373914625442061822899115672247558280006500000000001249452526195203096624915844470454167706689203869499999999994252733553845272988058274799219067656925684904517500000000006739613258423704951141984958653275204590571178063499999999993788813412459907207373785366167831524712030383232500000000003105133091736666219362873576675398696561307289010499999999993790654220593427915174720327130573689042740460729500000000006732250025889622119938245114802306547267730868074499999999994280345675848083605072299213660200121886336066975500000000001146367270718043459772558030556892965186924864027500000000001134185241279742555837468664112228017365964476917499999999994316891764162986316877567312994194965349217228306500000000006598247702068312176652262083910992121237166609858499999999994290117427563764976513384351361836549702116332260500000000001241282587676627917294200510641661679954368061101500000000000744752221729723354309813606071516730480411423337499999999995779708525404478665466545065072271398123986245552500000000001136413676652361983824006133639397677023643594454499999999999674636767986073399237430400370137893781439376633500000000000165039251403344419226272264880050747850598899014499999999999665206226400548923857480540109659114816165027311500000000001174135842994459885343805574681312792884740991744499999999995638250401621611534767297161165089713644871005714500000000001272862550519093975587005780658328352535774985400499999999999270299396302012562884679716201596876212029052687500000000001645939864272855772874275354535284142616108803853499999999994145941146606564345618218865657266553323535731901500000000006770295549300886844652849182835649644089748268544499999999993772876656189888275770384403000134870317471193924500000000003138197825939560052265613205163810874640366955760499999999993674332040051871515167162776344621631121060983035500000000007164474013852953887065735689457702600875389112100499999999992667771904536312936569894465824567965377382568565500000000007164438368001794366654686447244025537615080613641499999999993674474623456509596811359745199329884162294976870500000000003137663138172167246099874571958654925735739478880499999999993774872823854821418789141966966050412894747107609500000000006762845566408547078743557560177143422685272090685499999999994173744910510990266236627792325375896364164529650500000000001542174791547491856309931270521352991858069790714499999999999657555923299042308523647125589212136203556307492499999999999827601515256338909595480227121798463327704979317500000000001032038015675602053094431965923594010485623775242499999999996044246422041252878026791909183825494729799919717499999999999790976296159386434798400397341104010595176545890500000000004791848393321201382779606501451758462889493896723499999999996041630130555808034083173596851862137846847867219499999999996041631084455566480887699111140792985723114634401500000000004791845531621926042366029958584965919260693595176499999999999790986789056729349648181054519343337234110984894499999999996044207312151156559041245823337660731802862465248500000000001032183962338644414186835652130013735554439154115499999999999827056838494265784211411568142284325979380918291499999999999659588683684292448967518075300848960528037172722500000000001534588426768564419918516130654319831908470390823499999999994202057609241449871358417402081871711838081263986500000000006657181136265636094647814261018193320739204553232499999999994169217845696005750050325553845355005205100523085500000000001665947480950340905150883523600386658440393354427499999999999166992230502630629346140351753098361033326059206500000000001666083597039136577464555069387219897426302408749499999999994168673381340823060795639370698022049261464305797500000000006659222877597571179352887447820691905527840368061499999999994194435108268892221792810838019210328627174221957500000000001563036689326859933475869200102466779963462744111499999999999553418134423668044303712361570922551518974801600500000000000223290772978467889309281353613843013960638049489499999999999553418773662460398459162223973705392638473000443500000000001563034132371690516854069750491335415485469948739499999999994194444696850777534124558774060952945419647204601500000000006659187080225199346647695153264852802835941232858499999999994168806982248425079284660612879635843236587863966500000000001665584990781100336213662395216603824217707311279499999999999168853054627173575860689806253948859892582890920500000000001659002790710205360343578379767600736211961125041499999999994195135782532004982764996674675648195259572608915500000000006560454079161774708596434921529806482749748439299499999999994563047900820896182849263639205125873741433633889500000000000187354317554640560006510521649690022284517025145500000000004687534828960541577124694274196114037120498265532499999999996062506366603193131494712381565853829233489912726499999999996062439704626685896896456199540470645945542083562500000000004687734814890063280919462820272263586984341753025500000000000186621035813060979425692519370475006117090904337499999999994565781041857692801377767102245836388547294629628500000000006550254796756167815063239071646179439693730577151499999999994233199771117635938369276611169445852677783061767500000000001516946118773288431459654483676037149595137175782499999999999699015753789210335792105454126405548941668235105499999999999686990866069870225371923699818340654638189883798500000000001553020781931308762720199746600231832505572229704499999999994100926006204894723747277313780732015339521197386500000000007043275193249112342290690998276840106136342980752499999999992725973220798655907089958693111907560115106879607500000000007052831923556264029349474229275529653403229500821499999999994062699084976287975512144389785973826271975117109500000000001696371736538584068601948211580575041508870030744499999999999151813968869375750080062763891726007692544759917500000000001696372387983912931077800732852520927720950929588499999999994062696479194972525608734304698190281423651521729500000000007052841695236196966487262048354717946584442983494499999999992725936739860239608442217501882937932238576544293500000000007043411345322844599743867944113530324461250839334499999999994100417878848381992582310721662940769916420098371500000000001554917139283627429926889169234706595873068767182499999999999679913564017108287710132601398232846591304832900499999999999725428604647939419232580425172362017761711901217)
  pure val QD2_6 = unpack(118, 499999999997906321770619241975751099896701052293688127993812499999999997320986837445968821885658215136644681870436880245499999999997809730879596882736706267242752368978830124485210499999999996440089644166500231289272813853879402809065178916500000000001429910543737116338136641501832113409933614799127499999999997840268180885034416164161178817666957456475624576499999999992209016732722745997206713782897218760240482702569500000000003323664888223981595008983689593458001581593565147499999999994496323714381327622757351458728949233433143036841500000000003691040254250707913961610475490745064685834287489499999999990739515268615840721396206639308070507823519813205500000000003350898671285929200453562967276972904020086459693499999999995856890046240442476789541491584037876096134348022499999999998221541143752300892388271066386875591595376148217499999999996256945378750353953657374242868459757522361059108500000000001750677341246283292982231962139285378315179615349499999999996740345256264512874413697908574398729216920479495499999999996287941633695665209362976403563119704817138466670500000000003107888208952826288134396477173122451514525653824499999999991280505530493029638099437687744390489124758918034500000000001770089669075055159467852771849315591986438674039500000000001639135793206749724029151224858347142929486385810499999999991673367158097945944415542328717295836295615782721500000000001667395574401466498308679460272469511888050483307500000000001657050544296188062349739830192826116152182284053499999999991704402248413781252292361218956226023503220380481500000000001525340462048686928480815293982269789834936194021500000000002194235903391471033784377605114694817157034843434499999999989697715924385428936381674285558950941536924432244500000000009014900399066813220688925252649501416695267427591499999999989242682479347318180862624703843043391682005857391500000000004014369683543914055860575931978325016576709142844499999999994699838786477025595695071568243656542011157571232500000000002186275170547983561359137795047048815378660572226499999999996555060531331040158868377251568148196474200139864499999999996593482704127855803167353198680358398724538868319500000000002071008652157536628462209953710418208627644386860499999999995122482687241997682983806986477968766764883584239500000000002439060598874472639602562100377706724312821276183499999999995121274917260111758605944612011204335983831311029500000000002075839732085080325973659451577475931751853479701499999999996575366154399566937499417581678891937008754770168499999999996622695650316651924028670221706956320213127439626500000000001933851244333825366385901531493282782138735471326499999999995641899372348046610427723652319912551231930675068500000000000498551266273988191903203859227067012933541828401500000000002363895562556000621959460910771819397033902011328499999999990045866483502009320258952497685655398930850126286500000000007452638503435962097004729098485559007242697483528499999999995143579502754142291722131108372108572098359939603499999999996973043485547468736106746468026006704363862758061500000000001964246555055982763850883019523864610446189028155499999999995169970294228600208489721453878534853851381129321500000000002355872268029616402190231164961995974148286454563499999999995406540633652934182749353886273481249555473052428500000000001017965197358646866812353289944079027629821335727500000000000521598576912478350001232953950202639925241604666499999999996895640494991439733182714894255110412669212245609499999999996895839443121762717267907469029355709397909412899500000000000521001732521509397745655229627466749739150102794500000000001020153626792199691749471612460777291645490175926499999999995398383760309691835256458320529424083678889193502500000000002386311331969032967224695105421526373638953050067499999999995056370911814176295844761257784470421765298606229500000000002388205020774261849396259863440591939299852525016499999999995390809005088776306570199288453161821035291293705500000000001048558958870632924322942982746760776558982300162500000000000414955159428691996138028780559795072728779505648499999999997291620403414599091124941895014058932525899677247499999999995418563226912911639362203639383969197167621785365500000000006034126688933754351426243547450064278803613181294499999999995444930017352070954932822170815773687617925489461499999999997186153241657961828842467769286840970724684860864500000000000810457016016081729697306752036862429483335067084499999999999572018694277711252368305222565709311341974870802500000000000901468206873073260829472357700300325148765449710499999999996822108478229995704313805346633089388062963330358499999999996810097880206943921915306255767342122599381228859500000000000937500000942228608024969630297542121539511754206499999999999439902116024141645984815223042489391242571754317500000000001302891534961204808035769477532500313490201228527499999999995348531744131039121872106866827509354796623331575500000000002302981488514638704475803055157462267323305445173499999999995439542301810406060224680912542641575910154887734500000000000938849304243737054625473294671971429036075003892500000000000805060481214645721273425908769472707945545096697499999999995840908770897680060280823070250137739181744609319500000000000831304435194634037603281810229976335327476466027500000000000833873488323783789306049688829956919508349526573499999999995833201611510230805172519434450195986639125427679500000000000833320065635292990003872573369259133935148762709500000000000833518125948597234811990272072767477620279521484499999999995832607430570318070748166338339670955583733151356500000000000836052151770130482195344374568548700044787873091500000000000823183962349160000470456163386134244237115356279499999999995871211998833229515922830971886914323006750701791500000000000691968042317921935838219949066208463735881836556500000000001360915831895082740724289231848251822049721951987499999999993864368630101747101264623123540784248065230355498500000000008181609647697928854217218273988611185689356626021499999999988409192779106537481866503780504771009177343140417500000000008181619235875921218316766603992304777601270812312499999999993864330277389777644866429803526009880417573610334500000000001361059654564968202217514181903655700728434746352500000000000691431104350349546263513468859367316668687404259499999999995873215928033633612728431942658875032596815636612500000000000815705183515116002822758760505132552944050049294500000000000863963337905902375980533015320594755626984166212499999999995728441464861274493255109178212488424548013285857500000000001222270802648999650999030271829451546180962690359499999999999382475324542726902748769734469705390728135952708500000000001247827899180092738005890790291726890906493498809499999999995626213078736902145227667104363387045645890052057500000000001247319785872298681083440792254724926509946292962499999999999384507777773903130438569726617713248314324776096500000000001214649103032088797162280301274422080232754602654499999999995756895810097741680912309068284598430754656813288500000000000757767656576944479188483425587184196748618144195)
  pure val QD2_7 = unpack(118, 499999999984975246841275257995335140086678141556425269248718499999999969256625012464153990044686806009143365026449973369499999999987998253108868126044486112689285284983468930857807499999999973750362552063341832010862436849716701097826595402499999999982000296682878506627470437563315848212139762760583499999999978248450716422631658107387309886890450343122362264499999999985005900451430966740100013197136589986487747790362499999999976727947477853501381492559901566749603705886476290499999999988082309637155027733929747196596411598688706304480499999999980942813973526387682788451312047604001539288305792499999999983146434468739421534916447555213172395154140472352499999999981471448151515926177545758467099706417844149804801499999999985967772925196873754900518576388001933469260308443499999999984657460147696578802852167227348285848278808961428499999999985402386484016811033690812514218854673415503845844499999999983732993916236177062384582715776295458059175655196499999999989665637851038480716770856622675963494347793533372499999999982604454679609900070531990793519850564549650211314499999999989916543430521919001101180203244634247453605621371499999999982729371598302423925063288393501612445635927303202499999999989165970176268385298645666222748915970002685165822499999999985606747696624034880354046715502723674353332033512499999999993407039037235475179938146915240189332583986700132499999999980765096154434064399893365623536518995310721165962499999999993532576345028267220488390590613734686173128636020499999999985104598465452866718153072014008542259996764289956499999999991049029793160265906899321353352096273839814204154499999999990699282361906069654249642572583072644643978893428499999999986153840759215455476102108356315613147584270222135499999999989685354601232108441341924002154474765018940218033499999999995104740835856110758530195635066487792339968905735499999999984895682055343448524537293457579574065621184159027499999999990312530942770095143320630534615215945175294458156499999999993854194173576170902180184403959562153677638008350499999999989270692362925221247958631849546535440114153508444499999999989063036374722944105985288197854296085865747957873499999999994477162138183002328100215359036280216422854660064499999999988028315072545046581613850366000583048442833401870499999999993409577571636811345444383176961387589805811732457499999999993333374640907708036608616926153866592333919668303499999999988256923864732356508121149118423146040858509594333499999999993638929900162865930906786600153549244232041954366499999999992187356534616179768251704480962656982213322588203499999999992611643961372414996086395475995822826914667692822499999999992366067619894160247402713615054051710128006640510499999999992924085559050944014302750063787970332573305745137499999999990937590143902063695386286129794066959578770378940499999999998325553865340801204152105417035761829111612739102499999999985760194394734731488005292202062885723974778664652499999999998633668555720272843826725774712695274989272602292499999999989705131382384177136687804699086333176068130926181499999999997545805914743018609422055428941972020738203692985499999999990111644958643748425623973585145778740979054301881499999999997007614250681987688082050230474913015345579099491499999999991857898038628300822047825492954569197638629300154499999999990560793594804809023726647797706810194099903699894500000000000898927582152463083045583316218190025961755900270499999999990843496076585338644091018937420429702053072699027499999999990727088111506182340590340934100091165825953303624500000000001248151477389931993547617326179205634643114086479499999999989280305978934089685219189761183086295601590350462499999999996630624606873709265575623629088449182950524511674499999999994197195593571073252478315722463116972596311602841499999999996580593018841997724511113481059082926664229076963499999999989480432331060935849477230353300551320746772089306500000000000497677656914258877579965105738711790348682565811499999999993528857041282028640202909223744601517858497647450499999999995386894177957626561608397999282882138217326844389499999999994923566246887465113363498779123869929272194974993499999999994918840834492512984937606884221638144693893255639499999999995401070415142482946886073683989577491952232002450499999999993476877504937555227518098379820051887497178734562500000000000691419565107296143041532796730214958059053059304499999999988757444234633260200315770433259088280266609028223499999999999278803496359663055695385470233431920874510827805499999999999127341779928087576902687685807184036235347660557499999999989211829383927986636693863786537831934184098529967499999999999025340684359965876321857168041488227028258219576499999999999686807878632149858018707541296215157702868591730499999999987227427801111434691603312666773651142160267413503500000000006403480916922111375568041791609180273656061754257499999999987158648531200119806124520166789627763215485569467499999999999961924958277409399933877541232308673481995967874499999999997993651635690242594139969668281137542856530559037499999999993063468498961620223506243785643141155091881795979499999999999752474368463276511835055189146297836775942257046499999999992926634027185273729153535457771667497804349175836499999999998540989522795628571550802979767032172006661039612499999999997909407881632211984643252623160203814169006665718499999999994821378950675523489876186527592152571317312297516499999999992805076315665694055852001266471185900561744144219500000000003958315786661700286715808406523103826435711125608499999999991361660537687504797284765107436398793695411353349500000000000595042062588280524145131163731300998782643460996499999999991258171211959373106134710237638397211174014802667500000000004372273089574227051316027885715110156521297328337499999999991252736429743718688601178219501162162740795883985500000000000616781191450898194279259236280241192515519135723499999999991280138804452688534281784835377873067197127573125500000000004262663590738347668593601422208266538695970571778499999999991669206832593920791343809475789060778018990139763499999999999060509078885969166031160674635490349228068869169499999999997088756851862202544531547825668977825068734383560499999999997584463513665220655842648022688598350496993596593499999999997573389093476914832097860083576628772943291230070499999999997121980112427120015765911643004886557729841483127499999999998938690456814605104838493344403824996137342837423499999999992123258060314459564880114979379813457720787167182500000000002568277301927556635641046738076921172979508493850499999999997603632731975313892555698068312501850361178857417499999999992017191770171187794136160988673071425575776076483500000000004327600187339934930899657976995212447335716836650499999999990672407480469072482265207103346078785081356576918500000000002982769890783775140039513609620472412338856855680499999999997396512956395826957576738458172031565563216000362499999999992431178283632917029653532557691401325408279142871500000000002878773909072504923809131311062363132803667428155499999999996053726080077063275109942198059146143377051144508)
  pure val QD2_8 = unpack(59, 499999856864209432646061276794629332346969359623737180110010499999925150000000000000000000000000000000000000000000000000499999993435790567353938723205370667653030640376262819889990499999993352628297938183830383887997040908078871211540330029499999997602196240893325955259077344183337044138891018789893499999998045086738488512348579802626225743744573224384510399499999998718456805152624650421712150913687977568211443168511499999999000586040900989049733348770119504345153929842815555499999999222199031243419150644892768608294641816069185569267499999999366117834125334347687080155447317087581793414907378499999999474829632255243458606786609602437007856757154801222499999999554563636853691817885773406142934880991177965887734499999999618915820329989269850119765825823468178530981647840499999999667273081826351102713747530553771246294698107520905499999999707991852364606319294890111959091546642676588268541499999999741259508715223620106692021609862567134595539404933499999999768470112774499200278341801601458184818941254111727499999999791360040186779578779940771984304693589639444148158499999999812089726478382484601895110461323040822500969295640499999999827781053899690482812478786170403143120356678669282499999999843286057922855584148189744857064386696072316027231499999999855574714408887180594762234401339310095354057221794499999999867415084441595693472761317537578372922511455085592499999999876764947824730045514192495448347198214600122435838499999999886025124259484124470468700669032834219088055171057499999999893634555137333456603932701875521464909047656879934499999999900436655191182049113800491828881306144721317309207499999999907618824097938346940865330808953310512067073883237499999999912588048417064563122738184935305451807010387157845499999999918528982233803400568181929449824882259891377485385499999999922796022647721834604534097265395019153424102900617499999999926786927175309261013681681488595041126412210912147499999999932056268651041121340739176780224816340927053450797499999999933987998220526253623361611390505693509879575284667499999999938991738466853864165814377657752409619554645410536499999999941045047912058289713380877978484668011901843073191499999999944328069884912976980662110428308918332837982296701499999999947142672548289802363970680308279658656746227740006499999999949101239921927813563455168338572447040177106743274499999999951952367763998943382208646337430553182545345286898499999999953589289022076412907710246311705340229641512109135499999999956190476147695404986950368415748085898888606276562499999999957648806387141967144488280025302316174804062784615499999999959714298303736726435096511483042649401895142584977499999999960494000397911127115125674042527086217615366875478499999999965809700104618765104400792346849005727643389913110499999999958767199183613812467271156570076890871811073472081499999999971121503160925985026514581372843430785112316198565499999999961746788172682247426670517938549385987739661733661499999999971891344148345025266803346872959025263929036866793499999999970687835233937651506116094569614512956544190799166499999999965357314915904368708732274848582922909894199936542499999999972882905102444873658954806036053795403879009454665499999999978111064674316136655448501007201895474589762244799499999999964672836200290579719251189935138622697761941566139499999999983197590524521544467546739252243613734362471490646499999999967536801701623242410561853055886922364788172471279499999999981655202668985485890205848524208696806484838624240499999999970842387622434814028614752847278290409272473031761)
  pure val QD2 = List(QD2_0, QD2_1, QD2_2, QD2_3, QD2_4, QD2_5, QD2_6, QD2_7, QD2_8)
}
