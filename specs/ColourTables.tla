---------------------------- MODULE ColourTables ----------------------------
\* CSS colour names; linear light of a channel value v at Lin[v + 1] (white 100000);
\* CIE lightness of the grey v at Grey[v + 1] (white 100000).  Written by tools/colour_tables.py.
EXTENDS Integers, Sequences
Names == [
    aliceblue |-> <<240, 248, 255>>, antiquewhite |-> <<250, 235, 215>>, aqua |-> <<0, 255, 255>>, aquamarine |-> <<127, 255, 212>>,
    azure |-> <<240, 255, 255>>, beige |-> <<245, 245, 220>>, bisque |-> <<255, 228, 196>>, black |-> <<0, 0, 0>>,
    blanchedalmond |-> <<255, 235, 205>>, blue |-> <<0, 0, 255>>, blueviolet |-> <<138, 43, 226>>, brown |-> <<165, 42, 42>>,
    burlywood |-> <<222, 184, 135>>, cadetblue |-> <<95, 158, 160>>, chartreuse |-> <<127, 255, 0>>, chocolate |-> <<210, 105, 30>>,
    coral |-> <<255, 127, 80>>, cornflowerblue |-> <<100, 149, 237>>, cornsilk |-> <<255, 248, 220>>, crimson |-> <<220, 20, 60>>,
    cyan |-> <<0, 255, 255>>, darkblue |-> <<0, 0, 139>>, darkcyan |-> <<0, 139, 139>>, darkgoldenrod |-> <<184, 134, 11>>,
    darkgray |-> <<169, 169, 169>>, darkgreen |-> <<0, 100, 0>>, darkgrey |-> <<169, 169, 169>>, darkkhaki |-> <<189, 183, 107>>,
    darkmagenta |-> <<139, 0, 139>>, darkolivegreen |-> <<85, 107, 47>>, darkorange |-> <<255, 140, 0>>, darkorchid |-> <<153, 50, 204>>,
    darkred |-> <<139, 0, 0>>, darksalmon |-> <<233, 150, 122>>, darkseagreen |-> <<143, 188, 143>>, darkslateblue |-> <<72, 61, 139>>,
    darkslategray |-> <<47, 79, 79>>, darkslategrey |-> <<47, 79, 79>>, darkturquoise |-> <<0, 206, 209>>, darkviolet |-> <<148, 0, 211>>,
    deeppink |-> <<255, 20, 147>>, deepskyblue |-> <<0, 191, 255>>, dimgray |-> <<105, 105, 105>>, dimgrey |-> <<105, 105, 105>>,
    dodgerblue |-> <<30, 144, 255>>, firebrick |-> <<178, 34, 34>>, floralwhite |-> <<255, 250, 240>>, forestgreen |-> <<34, 139, 34>>,
    fuchsia |-> <<255, 0, 255>>, gainsboro |-> <<220, 220, 220>>, ghostwhite |-> <<248, 248, 255>>, gold |-> <<255, 215, 0>>,
    goldenrod |-> <<218, 165, 32>>, gray |-> <<128, 128, 128>>, green |-> <<0, 128, 0>>, greenyellow |-> <<173, 255, 47>>,
    grey |-> <<128, 128, 128>>, honeydew |-> <<240, 255, 240>>, hotpink |-> <<255, 105, 180>>, indianred |-> <<205, 92, 92>>,
    indigo |-> <<75, 0, 130>>, ivory |-> <<255, 255, 240>>, khaki |-> <<240, 230, 140>>, lavender |-> <<230, 230, 250>>,
    lavenderblush |-> <<255, 240, 245>>, lawngreen |-> <<124, 252, 0>>, lemonchiffon |-> <<255, 250, 205>>, lightblue |-> <<173, 216, 230>>,
    lightcoral |-> <<240, 128, 128>>, lightcyan |-> <<224, 255, 255>>, lightgoldenrodyellow |-> <<250, 250, 210>>, lightgray |-> <<211, 211, 211>>,
    lightgreen |-> <<144, 238, 144>>, lightgrey |-> <<211, 211, 211>>, lightpink |-> <<255, 182, 193>>, lightsalmon |-> <<255, 160, 122>>,
    lightseagreen |-> <<32, 178, 170>>, lightskyblue |-> <<135, 206, 250>>, lightslategray |-> <<119, 136, 153>>, lightslategrey |-> <<119, 136, 153>>,
    lightsteelblue |-> <<176, 196, 222>>, lightyellow |-> <<255, 255, 224>>, lime |-> <<0, 255, 0>>, limegreen |-> <<50, 205, 50>>,
    linen |-> <<250, 240, 230>>, magenta |-> <<255, 0, 255>>, maroon |-> <<128, 0, 0>>, mediumaquamarine |-> <<102, 205, 170>>,
    mediumblue |-> <<0, 0, 205>>, mediumorchid |-> <<186, 85, 211>>, mediumpurple |-> <<147, 112, 219>>, mediumseagreen |-> <<60, 179, 113>>,
    mediumslateblue |-> <<123, 104, 238>>, mediumspringgreen |-> <<0, 250, 154>>, mediumturquoise |-> <<72, 209, 204>>, mediumvioletred |-> <<199, 21, 133>>,
    midnightblue |-> <<25, 25, 112>>, mintcream |-> <<245, 255, 250>>, mistyrose |-> <<255, 228, 225>>, moccasin |-> <<255, 228, 181>>,
    navajowhite |-> <<255, 222, 173>>, navy |-> <<0, 0, 128>>, oldlace |-> <<253, 245, 230>>, olive |-> <<128, 128, 0>>,
    olivedrab |-> <<107, 142, 35>>, orange |-> <<255, 165, 0>>, orangered |-> <<255, 69, 0>>, orchid |-> <<218, 112, 214>>,
    palegoldenrod |-> <<238, 232, 170>>, palegreen |-> <<152, 251, 152>>, paleturquoise |-> <<175, 238, 238>>, palevioletred |-> <<219, 112, 147>>,
    papayawhip |-> <<255, 239, 213>>, peachpuff |-> <<255, 218, 185>>, peru |-> <<205, 133, 63>>, pink |-> <<255, 192, 203>>,
    plum |-> <<221, 160, 221>>, powderblue |-> <<176, 224, 230>>, purple |-> <<128, 0, 128>>, rebeccapurple |-> <<102, 51, 153>>,
    red |-> <<255, 0, 0>>, rosybrown |-> <<188, 143, 143>>, royalblue |-> <<65, 105, 225>>, saddlebrown |-> <<139, 69, 19>>,
    salmon |-> <<250, 128, 114>>, sandybrown |-> <<244, 164, 96>>, seagreen |-> <<46, 139, 87>>, seashell |-> <<255, 245, 238>>,
    sienna |-> <<160, 82, 45>>, silver |-> <<192, 192, 192>>, skyblue |-> <<135, 206, 235>>, slateblue |-> <<106, 90, 205>>,
    slategray |-> <<112, 128, 144>>, slategrey |-> <<112, 128, 144>>, snow |-> <<255, 250, 250>>, springgreen |-> <<0, 255, 127>>,
    steelblue |-> <<70, 130, 180>>, tan |-> <<210, 180, 140>>, teal |-> <<0, 128, 128>>, thistle |-> <<216, 191, 216>>,
    tomato |-> <<255, 99, 71>>, turquoise |-> <<64, 224, 208>>, violet |-> <<238, 130, 238>>, wheat |-> <<245, 222, 179>>,
    white |-> <<255, 255, 255>>, whitesmoke |-> <<245, 245, 245>>, yellow |-> <<255, 255, 0>>, yellowgreen |-> <<154, 205, 50>>]
Lin == <<
    0, 30, 61, 91, 121, 152, 182, 212, 243, 273, 304, 335, 368, 402, 439, 478,
    518, 561, 605, 651, 700, 750, 802, 857, 913, 972, 1033, 1096, 1161, 1229, 1298, 1370,
    1444, 1521, 1600, 1681, 1764, 1850, 1938, 2029, 2122, 2217, 2315, 2416, 2519, 2624, 2732, 2843,
    2956, 3071, 3190, 3310, 3434, 3560, 3689, 3820, 3955, 4092, 4231, 4374, 4519, 4667, 4817, 4971,
    5127, 5286, 5448, 5613, 5781, 5951, 6125, 6301, 6480, 6663, 6848, 7036, 7227, 7421, 7619, 7819,
    8022, 8228, 8438, 8650, 8866, 9084, 9306, 9531, 9759, 9990, 10224, 10462, 10702, 10946, 11193, 11444,
    11697, 11954, 12214, 12477, 12744, 13014, 13287, 13563, 13843, 14126, 14413, 14703, 14996, 15293, 15593, 15896,
    16203, 16513, 16827, 17144, 17465, 17789, 18116, 18447, 18782, 19120, 19462, 19807, 20156, 20508, 20864, 21223,
    21586, 21953, 22323, 22697, 23074, 23455, 23840, 24228, 24620, 25016, 25415, 25818, 26225, 26636, 27050, 27468,
    27889, 28315, 28744, 29177, 29614, 30054, 30499, 30947, 31399, 31855, 32314, 32778, 33245, 33716, 34191, 34670,
    35153, 35640, 36131, 36625, 37124, 37626, 38133, 38643, 39157, 39676, 40198, 40724, 41254, 41789, 42327, 42869,
    43415, 43966, 44520, 45079, 45641, 46208, 46778, 47353, 47932, 48515, 49102, 49693, 50289, 50888, 51492, 52100,
    52712, 53328, 53948, 54572, 55201, 55834, 56471, 57112, 57758, 58408, 59062, 59720, 60383, 61050, 61721, 62396,
    63076, 63760, 64448, 65141, 65837, 66539, 67244, 67954, 68669, 69387, 70110, 70838, 71569, 72306, 73046, 73791,
    74540, 75294, 76052, 76815, 77582, 78354, 79130, 79910, 80695, 81485, 82279, 83077, 83880, 84687, 85499, 86316,
    87137, 87962, 88792, 89627, 90466, 91310, 92158, 93011, 93869, 94731, 95597, 96469, 97345, 98225, 99110, 100000>>
Grey == <<
    0, 274, 548, 823, 1097, 1371, 1645, 1919, 2193, 2468, 2742, 3023, 3321, 3635, 3967, 4315,
    4680, 5063, 5464, 5882, 6319, 6774, 7247, 7740, 8248, 8757, 9263, 9767, 10268, 10767, 11264, 11758,
    12250, 12740, 13228, 13714, 14198, 14680, 15160, 15638, 16114, 16589, 17062, 17533, 18003, 18471, 18937, 19402,
    19866, 20327, 20788, 21247, 21704, 22160, 22615, 23069, 23521, 23972, 24421, 24870, 25317, 25763, 26207, 26651,
    27093, 27535, 27975, 28414, 28852, 29289, 29725, 30160, 30593, 31026, 31458, 31889, 32319, 32748, 33175, 33603,
    34029, 34454, 34878, 35302, 35724, 36146, 36567, 36987, 37406, 37824, 38242, 38659, 39074, 39490, 39904, 40318,
    40731, 41143, 41554, 41965, 42375, 42784, 43192, 43600, 44007, 44414, 44819, 45224, 45629, 46032, 46435, 46838,
    47240, 47641, 48041, 48441, 48840, 49239, 49637, 50034, 50431, 50828, 51223, 51618, 52013, 52407, 52800, 53193,
    53585, 53977, 54368, 54758, 55148, 55538, 55927, 56315, 56703, 57091, 57478, 57864, 58250, 58635, 59020, 59405,
    59789, 60172, 60555, 60938, 61320, 61701, 62082, 62463, 62843, 63223, 63602, 63981, 64359, 64737, 65114, 65491,
    65868, 66244, 66620, 66995, 67370, 67744, 68118, 68492, 68865, 69238, 69610, 69982, 70354, 70725, 71096, 71466,
    71836, 72206, 72575, 72944, 73312, 73680, 74048, 74415, 74782, 75149, 75515, 75881, 76246, 76611, 76976, 77340,
    77704, 78068, 78431, 78794, 79157, 79519, 79881, 80243, 80604, 80965, 81326, 81686, 82046, 82405, 82765, 83124,
    83482, 83840, 84198, 84556, 84913, 85270, 85627, 85984, 86340, 86695, 87051, 87406, 87761, 88115, 88470, 88824,
    89177, 89531, 89884, 90236, 90589, 90941, 91293, 91645, 91996, 92347, 92698, 93048, 93398, 93748, 94098, 94447,
    94796, 95145, 95494, 95842, 96190, 96537, 96885, 97232, 97579, 97926, 98272, 98618, 98964, 99310, 99655, 100000>>
=============================================================================
