//! A PBF block of dense nodes and ways, deflated with dynamic and with fixed Huffman codes
//! (made with Python's zlib; pbft::packed_models says what it holds).
pub const SIZE: usize = 1600;
pub const DYNAMIC: [u8; 510] = [120, 218, 229, 210, 205, 107, 19, 65, 24, 199, 241, 253, 205, 206, 166, 113, 227, 75, 27, 17, 113, 69, 84, 82, 145, 146, 138, 136, 44, 34, 222, 122, 146, 109, 79, 166, 249, 3, 210, 221, 197, 38, 216, 22, 218, 5, 41, 244, 80, 223, 235, 214, 119, 99, 171, 107, 142, 253, 43, 114, 246, 80, 164, 7, 47, 130, 244, 232, 65, 36, 244, 24, 181, 142, 175, 187, 207, 105, 30, 115, 21, 44, 152, 195, 30, 190, 51, 59, 251, 153, 135, 216, 174, 109, 216, 125, 147, 245, 203, 147, 87, 107, 243, 118, 97, 54, 156, 171, 7, 225, 116, 84, 175, 93, 177, 229, 116, 109, 42, 180, 11, 23, 211, 181, 99, 149, 104, 54, 12, 35, 59, 63, 55, 51, 21, 78, 204, 4, 243, 197, 229, 92, 113, 41, 103, 175, 98, 29, 98, 39, 254, 70, 222, 194, 175, 150, 157, 5, 5, 217, 134, 217, 65, 96, 85, 98, 209, 133, 66, 75, 184, 131, 9, 124, 175, 41, 26, 37, 133, 53, 52, 198, 188, 32, 193, 22, 220, 113, 133, 225, 88, 68, 150, 223, 193, 43, 180, 177, 145, 238, 29, 117, 90, 168, 6, 213, 22, 156, 81, 149, 134, 118, 186, 208, 129, 111, 69, 177, 24, 86, 24, 119, 183, 144, 32, 240, 198, 26, 107, 233, 214, 82, 163, 41, 60, 63, 193, 160, 219, 18, 10, 93, 196, 162, 98, 5, 29, 152, 109, 72, 133, 5, 167, 92, 253, 75, 26, 111, 5, 198, 161, 179, 251, 134, 172, 163, 231, 15, 156, 46, 156, 192, 97, 119, 160, 220, 119, 252, 194, 193, 51, 123, 78, 154, 71, 206, 237, 63, 181, 171, 244, 143, 150, 47, 41, 64, 24, 134, 241, 95, 62, 138, 219, 150, 51, 144, 239, 154, 69, 1, 211, 17, 66, 142, 200, 117, 24, 72, 211, 39, 45, 189, 134, 200, 210, 103, 45, 189, 129, 204, 210, 23, 45, 109, 34, 151, 165, 109, 45, 125, 68, 62, 75, 95, 181, 244, 14, 118, 150, 148, 150, 54, 176, 59, 75, 223, 180, 244, 1, 123, 179, 244, 93, 75, 239, 209, 159, 165, 31, 44, 17, 245, 39, 123, 145, 168, 191, 216, 241, 68, 93, 148, 58, 130, 168, 215, 100, 15, 245, 186, 212, 47, 68, 212, 27, 82, 191, 54, 81, 111, 74, 125, 56, 68, 189, 37, 245, 17, 18, 245, 54, 219, 69, 212, 59, 236, 44, 162, 46, 177, 47, 18, 245, 46, 115, 17, 53, 102, 122, 162, 46, 75, 253, 142, 68, 189, 39, 245, 73, 16, 245, 190, 212, 231, 69, 212, 7, 178, 103, 170, 15, 217, 139, 68, 125, 196, 142, 39, 234, 99, 134, 32, 234, 147, 94, 234, 83, 118, 33, 162, 54, 217, 181, 137, 250, 140, 13, 135, 168, 43, 108, 132, 68, 93, 101, 187, 136, 250, 156, 157, 69, 212, 23, 236, 139, 68, 77, 152, 139, 168, 47, 255, 248, 3, 252, 6, 136, 135, 205, 148];
pub const FIXED: [u8; 537] = [120, 1, 227, 50, 229, 98, 224, 98, 207, 200, 76, 207, 40, 79, 172, 228, 226, 46, 74, 45, 206, 76, 73, 205, 43, 201, 76, 204, 225, 98, 201, 75, 204, 77, 229, 226, 246, 0, 202, 41, 4, 151, 20, 165, 166, 150, 112, 113, 20, 231, 231, 166, 38, 229, 167, 84, 10, 117, 179, 9, 117, 176, 113, 77, 103, 60, 193, 200, 52, 24, 129, 211, 85, 198, 228, 80, 109, 169, 154, 95, 140, 44, 187, 24, 153, 95, 49, 166, 176, 6, 119, 49, 125, 97, 252, 197, 56, 135, 201, 84, 101, 22, 99, 178, 215, 20, 166, 44, 229, 95, 140, 75, 24, 179, 124, 188, 82, 102, 49, 190, 97, 52, 13, 249, 197, 168, 211, 197, 84, 194, 154, 252, 138, 241, 8, 227, 46, 198, 51, 64, 181, 222, 82, 115, 24, 67, 83, 66, 231, 48, 74, 121, 255, 2, 10, 236, 2, 74, 188, 98, 76, 102, 45, 233, 98, 210, 249, 197, 24, 98, 250, 134, 113, 22, 99, 138, 151, 79, 214, 18, 160, 82, 229, 172, 41, 76, 94, 201, 179, 24, 85, 76, 231, 48, 253, 98, 252, 194, 216, 197, 20, 204, 154, 242, 138, 145, 121, 23, 35, 203, 47, 198, 26, 41, 237, 80, 42, 185, 198, 107, 26, 35, 131, 164, 49, 191, 38, 171, 188, 165, 168, 62, 183, 42, 163, 180, 169, 160, 54, 187, 162, 181, 184, 33, 175, 58, 179, 172, 185, 176, 46, 167, 242, 0, 73, 7, 253, 98, 100, 100, 98, 96, 96, 24, 145, 132, 208, 15, 86, 41, 65, 142, 47, 204, 66, 76, 140, 204, 82, 76, 76, 44, 78, 44, 39, 24, 25, 24, 129, 66, 95, 145, 132, 78, 49, 50, 129, 132, 190, 33, 9, 93, 96, 100, 1, 9, 125, 71, 18, 186, 197, 200, 6, 18, 250, 129, 36, 244, 130, 145, 3, 36, 244, 19, 73, 232, 6, 35, 23, 72, 232, 23, 146, 208, 25, 70, 30, 144, 208, 111, 36, 161, 103, 140, 124, 32, 161, 63, 72, 66, 143, 24, 5, 64, 66, 127, 81, 132, 192, 78, 253, 135, 162, 17, 236, 212, 255, 40, 198, 131, 157, 218, 192, 130, 236, 8, 176, 83, 27, 89, 48, 156, 218, 196, 130, 236, 33, 176, 83, 155, 89, 144, 189, 13, 118, 106, 11, 11, 114, 224, 128, 157, 218, 202, 130, 28, 132, 96, 167, 182, 161, 168, 2, 59, 181, 29, 197, 44, 176, 83, 59, 80, 108, 4, 59, 181, 19, 197, 93, 96, 167, 118, 161, 184, 30, 236, 212, 110, 22, 100, 63, 130, 157, 218, 195, 130, 28, 18, 96, 167, 246, 178, 32, 135, 23, 216, 169, 125, 44, 24, 161, 218, 143, 162, 17, 236, 212, 9, 40, 198, 131, 157, 58, 17, 197, 17, 96, 167, 78, 194, 116, 234, 100, 20, 15, 129, 157, 58, 5, 197, 219, 96, 167, 78, 69, 9, 28, 176, 83, 167, 161, 4, 33, 216, 169, 211, 81, 84, 129, 157, 58, 3, 197, 44, 176, 83, 103, 162, 216, 8, 118, 234, 44, 20, 119, 129, 157, 58, 27, 45, 1, 0, 0, 136, 135, 205, 148];
