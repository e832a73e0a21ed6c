// random literal version triples (the version macro only takes literals)
X(16, 6328, 0)
X(2, 65535, 3)
X(9156, 65535, 7747)
X(1, 3, 1)
X(1, 8192, 65535)
X(32, 1, 8)
X(0, 65532, 41175)
X(59399, 512, 65534)
X(65535, 32768, 16384)
X(4, 3, 65533)
X(65532, 5138, 2)
X(2048, 59795, 0)
X(32768, 0, 16384)
X(4096, 1, 46591)
X(65535, 7727, 65533)
X(65534, 51242, 10561)
X(65532, 36416, 65532)
X(8192, 4096, 65534)
X(1, 65534, 65535)
X(23900, 512, 1)
X(48398, 16, 3)
X(52175, 51658, 3)
X(8158, 65535, 65532)
X(65535, 2, 0)
X(65535, 1, 1)
X(19470, 2048, 32768)
X(0, 61078, 63417)
X(4, 65535, 256)
X(21160, 1, 16)
X(2, 2, 32)
X(128, 128, 65534)
X(29719, 65532, 1)
X(2, 33970, 65533)
X(45812, 4, 65535)
X(65532, 65533, 65532)
X(3, 4, 3)
X(65532, 65532, 4)
X(60707, 11130, 65534)
X(65535, 65532, 65532)
X(16, 65535, 0)
X(65532, 65534, 2)
X(65533, 65533, 8192)
X(65535, 16384, 17139)
X(65535, 24000, 1)
X(65534, 15772, 2)
X(13907, 1, 65533)
X(0, 3652, 3)
X(64, 16384, 32460)
X(64, 17974, 15941)
X(57949, 4, 65532)
X(1, 8, 65533)
X(65533, 65532, 65535)
X(63866, 65534, 65532)
X(44448, 25656, 1024)
X(2, 2, 57731)
X(3, 512, 0)
X(65535, 2, 2)
X(65533, 65532, 4096)
X(65532, 4, 2)
X(65532, 2, 0)
X(4, 65535, 8)
X(1513, 8192, 16)
X(1, 1, 2)
X(65534, 512, 65533)
X(23317, 2048, 2)
X(0, 1, 32201)
X(13930, 64880, 40341)
X(65534, 64, 65532)
X(2, 65535, 2)
X(21397, 0, 36953)
X(65533, 3, 65534)
X(16384, 2, 1024)
X(128, 2, 65533)
X(65535, 4096, 3)
X(64, 65535, 2)
X(1, 5461, 2948)
X(512, 65535, 65532)
X(32768, 65533, 65535)
X(18259, 1, 0)
X(1, 8, 59164)
X(0, 65532, 1)
X(9189, 0, 33055)
X(2, 65534, 65532)
X(50142, 3, 2)
X(65535, 65533, 512)
X(65535, 7950, 35228)
X(1, 38123, 16384)
X(61124, 1, 4)
X(2294, 16384, 3)
X(4096, 65534, 0)
X(65533, 16, 8)
X(128, 63719, 3255)
X(65535, 59082, 39577)
X(65532, 4096, 8)
X(1, 1024, 15734)
X(65535, 256, 4)
X(51139, 2, 36065)
X(2, 0, 16)
X(65533, 41366, 65533)
X(3802, 26664, 0)
X(59095, 65533, 6419)
X(65534, 54377, 512)
X(256, 4096, 65533)
X(51690, 1, 65535)
X(65532, 65532, 16384)
X(18297, 65534, 1)
X(4, 128, 256)
X(65535, 50179, 27525)
X(35420, 2, 36374)
X(16, 65535, 128)
X(52396, 56601, 1)
X(65535, 62032, 23)
X(3, 58844, 65535)
X(65534, 65535, 11141)
X(0, 65534, 2)
X(65533, 14697, 0)
X(64, 34194, 65535)
X(2, 36517, 128)
X(30771, 65535, 40291)
X(0, 65532, 10628)
X(128, 48525, 65532)
X(2, 47489, 25962)
X(2, 1, 26268)
X(64, 65532, 65533)
X(8, 24551, 65532)
X(7394, 65532, 1)
X(1, 6794, 1)
X(58935, 8, 1)
X(64, 65532, 2)
X(49005, 16384, 65535)
X(0, 4, 8192)
X(1, 46744, 8192)
X(0, 25652, 16384)
X(65533, 32768, 3)
X(65532, 3, 3)
X(0, 64, 2)
X(256, 2, 1024)
X(512, 0, 1)
X(3, 50661, 8192)
X(17394, 23978, 2)
X(65534, 1024, 47429)
X(1, 20963, 65532)
X(0, 42697, 65532)
X(0, 4, 65535)
X(65336, 22700, 65534)
X(60414, 65535, 512)
X(256, 256, 64)
X(32431, 65534, 65534)
X(64, 4, 32984)
X(65534, 3, 0)
X(3, 65532, 2)
X(128, 0, 65534)
X(2, 65532, 1)
X(2, 65535, 1024)
X(65535, 65533, 1)
X(2, 48733, 65533)
X(1, 3, 8293)
X(13289, 20257, 1)
X(35542, 37132, 8192)
X(2, 8192, 2387)
X(64, 53080, 65535)
X(20521, 14881, 3)
X(16384, 65534, 0)
X(65532, 2, 65534)
X(512, 65534, 0)
X(64292, 65533, 65535)
X(41225, 3, 1)
X(65532, 65532, 65534)
X(3, 65532, 8)
X(65534, 65535, 2)
X(3, 40136, 40397)
X(65532, 48162, 57455)
X(65535, 3, 30834)
X(60068, 65532, 14034)
X(1, 8192, 4)
X(5343, 1, 2)
X(0, 17850, 0)
X(1, 65532, 32)
X(65535, 256, 65533)
X(16384, 65533, 27305)
X(128, 2048, 1)
X(65532, 65533, 4096)
X(65533, 0, 16384)
X(2, 48688, 4096)
X(16, 1024, 3)
X(65534, 2, 512)
X(1, 1, 65533)
X(54747, 2, 65532)
X(65535, 0, 2)
X(8, 128, 39472)
X(65534, 32768, 65534)
X(1, 65532, 0)
X(65533, 34634, 0)
X(16384, 32571, 65535)
X(0, 3, 65534)
X(65535, 0, 65534)
X(26151, 22890, 4)
X(2, 832, 57232)
X(10548, 22988, 65535)
X(128, 0, 256)
X(2, 34772, 64)
X(0, 65533, 65534)
X(65533, 65532, 128)
X(61537, 836, 3)
X(65533, 65532, 1)
X(65535, 0, 1)
X(16, 0, 1)
X(0, 0, 64)
X(3, 1, 65534)
X(0, 0, 32768)
X(1, 1, 1024)
X(8192, 1, 256)
X(2, 1024, 37702)
X(3, 3, 2)
X(6306, 65535, 32)
X(170, 65533, 0)
X(32768, 3, 65532)
X(256, 65533, 65534)
X(21730, 0, 13704)
X(2048, 3, 11294)
X(3299, 64, 256)
X(22427, 30615, 16630)
X(2, 16, 42380)
X(65532, 33713, 65534)
X(16384, 65534, 512)
X(65534, 65533, 32)
X(65533, 65533, 1)
X(1, 19786, 65533)
X(8192, 64, 0)
X(64, 60806, 0)
X(57216, 65533, 2898)
X(65533, 723, 65532)
X(29958, 65534, 3)
X(41027, 8, 31771)
X(20507, 8192, 59663)
X(3, 65533, 3)
X(13943, 2, 65534)
X(65533, 3, 65532)
X(2, 8192, 27536)
X(65532, 2, 2)
X(4096, 8061, 0)
X(55121, 256, 1)
X(4096, 65532, 27788)
X(65534, 1, 29620)
X(65533, 61354, 16)
X(46497, 65533, 33233)
X(24364, 353, 2048)
X(65533, 32768, 56163)
X(2, 65533, 7479)
X(2, 65533, 0)
X(65535, 256, 1)
X(65534, 45409, 65534)
X(22008, 2, 65532)
X(65535, 15332, 2)
X(30693, 65532, 7661)
X(61222, 65532, 65532)
X(65535, 65533, 65222)
X(16384, 8192, 9882)
X(65533, 0, 2)
X(3, 18938, 1)
X(16633, 8, 1024)
X(27620, 8192, 8192)
X(2, 512, 32768)
X(43741, 2048, 65532)
X(2, 65533, 16)
X(0, 53219, 3)
X(8, 0, 65532)
X(3, 65535, 65535)
X(22793, 1, 3)
X(0, 16, 256)
X(32, 4488, 1)
X(7158, 5161, 3)
X(58519, 0, 20354)
X(54056, 0, 27823)
X(65535, 626, 0)
X(1, 1, 2330)
X(128, 24564, 2)
X(65535, 32768, 33298)
X(0, 0, 0)
X(40771, 32, 7835)
X(2048, 61577, 65534)
X(2, 65532, 50559)
X(35649, 512, 2)
X(1, 65533, 32258)
X(50771, 30717, 37133)
X(2, 256, 20615)
X(2, 65534, 32768)
X(4, 50035, 65534)
X(2, 60990, 65533)
X(3, 11495, 4)
X(65532, 1024, 26459)
X(65534, 65535, 65533)
X(2048, 19530, 65535)
X(49026, 2, 10713)
X(65533, 2, 1)
X(0, 65532, 65533)
X(8192, 3, 65533)
X(2, 65534, 10965)
X(0, 2, 63810)
X(3, 0, 1024)
X(65535, 23942, 20935)
X(128, 65534, 2)
X(2, 0, 32768)
X(0, 65533, 1)
X(16384, 3, 2048)
X(4096, 2, 49760)
X(65532, 65534, 3)
X(65535, 65534, 2)
X(65532, 3, 0)
X(44535, 128, 15153)
X(16, 128, 1)
X(18967, 19581, 8192)
X(32342, 65535, 512)
X(32, 32768, 2)
X(63233, 1, 1)
X(37517, 2, 65533)
X(34278, 65534, 3)
X(8192, 65535, 16)
X(3, 16, 252)
X(32, 8192, 3)
X(65533, 65534, 65534)
X(65534, 0, 35899)
X(65534, 65534, 64)
X(0, 7257, 1024)
X(32768, 0, 62470)
X(65533, 65534, 2)
X(65533, 2, 9350)
X(2, 65533, 8022)
X(8, 58515, 1)
X(1, 1, 65534)
X(2, 1, 0)
X(65533, 3, 65532)
X(2, 1, 2)
X(3, 36650, 0)
X(3, 65534, 65534)
X(51984, 65535, 55113)
X(3, 2, 4096)
X(65533, 42025, 7019)
X(16, 128, 1514)
X(8, 65535, 8192)
X(65535, 65534, 52042)
X(6129, 0, 256)
X(0, 8, 3)
X(65535, 8, 2048)
X(65535, 2, 3)
X(65532, 1, 8192)
X(256, 65535, 16384)
X(65532, 65533, 39806)
X(61468, 1, 65533)
X(65534, 51964, 2)
X(65534, 1024, 35379)
X(64, 2, 1)
X(2, 8128, 57658)
X(8, 65534, 44173)
X(16, 65533, 3)
X(16, 13547, 3)
X(3, 19612, 36609)
X(3, 60018, 2048)
X(2048, 50397, 1)
X(49895, 39324, 65533)
X(65532, 30400, 2)
X(128, 64, 1401)
X(0, 32768, 512)
X(56368, 60849, 2)
X(16384, 0, 65535)
X(49075, 20213, 65532)
X(52643, 44994, 1)
X(1024, 4, 32)
X(2, 8192, 65533)
X(65534, 23908, 0)
X(2, 1406, 2)
X(2, 12910, 0)
X(65534, 34867, 65534)
X(15925, 65534, 0)
X(0, 65532, 56442)
X(0, 16, 65533)
X(32, 2, 0)
X(64, 50548, 0)
X(65532, 3, 1)
X(65534, 1, 65533)
X(3, 8192, 32768)
X(1, 29019, 40521)
X(63489, 1, 1)
X(65533, 24451, 2)
X(47570, 2, 44024)
X(8578, 3, 128)
X(25060, 37170, 128)
X(4576, 1, 16)
X(65534, 1, 16)
X(61217, 65534, 2048)
X(65532, 27270, 32768)
X(65534, 17163, 16384)
X(128, 27858, 65535)
X(2, 3763, 65533)
X(3, 1, 65533)
X(65535, 2, 64)
X(2, 1, 16)
X(37010, 4096, 17323)
X(32, 2, 8192)
X(3, 65532, 8)
