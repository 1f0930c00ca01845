declare -A driver=( [C01]=contacts [C02]=dynamics [C03]=pointderivatives [C04]=bodyterms [C05]=taskcosts [C06]=bodyderivatives [C07]=bodyhistory [C08]=pointhistory [C09]=kindyn [C10]=maths [C11]=levi [C12]=compiled [C13]=server [C14]=foot [C15]=settings [C16]=ocp [C17]=solver [C18]=initial [C19]=references [C20]=containers [C21]=visualizer [C22]=logger )
