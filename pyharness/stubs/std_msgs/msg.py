from rosstub import Bool, Int32, Float32, Float64, Int32MultiArray, Float32MultiArray, Float64MultiArray
